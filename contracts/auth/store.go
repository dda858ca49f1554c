package auth

import (
	"context"
	"errors"
	"io/fs"
	"strings"
	"time"

	"github.com/hrygo/yaml_config"
	"go.mongodb.org/mongo-driver/mongo"
	"go.mongodb.org/mongo-driver/mongo/options"

	db "github.com/hrygo/gosms/database/mongodb"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C18: account store

// zvParsed is what the (stubbed) parser made of the data it was last given; zvBad says the data was refused.
var (
	zvParsed Client
	zvBad    bool
	zvData   []byte
)

func zvClient() Client {
	return Client{
		ISP: zz.Str("isp", 0, 20), ClientId: zz.Str("clientId", 0, 20), LoginName: zz.Str("login", 0, 20),
		SharedSecret: zz.Str("secret", 0, 20), Version: zz.U8("version"), NeedReport: zz.U8("report"),
		SmsDisplayNo: zz.Str("display", 0, 20), ServiceId: zz.Str("service", 0, 20), DefaultMsgLevel: zz.U8("level"),
		FeeUserType: zz.U8("feeUserType"), FeeTerminalType: zz.U8("feeTerminalType"), FeeTerminalId: zz.Str("feeTerminal", 0, 20),
		FeeType: zz.Str("feeType", 0, 20), FeeCode: zz.Str("feeCode", 0, 20), FixedFee: zz.Str("fixedFee", 0, 20),
		LinkId: zz.Str("link", 0, 20), MtValidDuration: time.Duration(zz.I64("valid")), MaxConns: zz.Int("conns", -1<<40, 1<<40),
		MtWindowSize: zz.Int("window", -1<<40, 1<<40), Throughput: zz.Int("throughput", -1<<40, 1<<40),
	}
}

// zvUnmarshal stands for yaml.Unmarshal: an error, or arbitrary values in every field.
func zvUnmarshal(in []byte, out any) error {
	zvData = in
	if zvBad {
		return errors.New("yaml")
	}
	*out.(*Client) = zvParsed
	return nil
}

// zvSame: every field of a is the one of b (the protocol apart).
func zvSame(a, b *Client) {
	zz.Ensures("ClientId is that of the account", a.ClientId == b.ClientId)
	zz.Ensures("LoginName is that of the account", a.LoginName == b.LoginName)
	zz.Ensures("SharedSecret is that of the account", a.SharedSecret == b.SharedSecret)
	zz.Ensures("Version is that of the account", a.Version == b.Version)
	zz.Ensures("NeedReport is that of the account", a.NeedReport == b.NeedReport)
	zz.Ensures("SmsDisplayNo is that of the account", a.SmsDisplayNo == b.SmsDisplayNo)
	zz.Ensures("ServiceId is that of the account", a.ServiceId == b.ServiceId)
	zz.Ensures("DefaultMsgLevel is that of the account", a.DefaultMsgLevel == b.DefaultMsgLevel)
	zz.Ensures("FeeUserType is that of the account", a.FeeUserType == b.FeeUserType)
	zz.Ensures("FeeTerminalType is that of the account", a.FeeTerminalType == b.FeeTerminalType)
	zz.Ensures("FeeTerminalId is that of the account", a.FeeTerminalId == b.FeeTerminalId)
	zz.Ensures("FeeType is that of the account", a.FeeType == b.FeeType)
	zz.Ensures("FeeCode is that of the account", a.FeeCode == b.FeeCode)
	zz.Ensures("FixedFee is that of the account", a.FixedFee == b.FixedFee)
	zz.Ensures("LinkId is that of the account", a.LinkId == b.LinkId)
	zz.Ensures("MtValidDuration is that of the account", a.MtValidDuration == b.MtValidDuration)
	zz.Ensures("MaxConns is that of the account", a.MaxConns == b.MaxConns)
	zz.Ensures("MtWindowSize is that of the account", a.MtWindowSize == b.MtWindowSize)
	zz.Ensures("Throughput is that of the account", a.Throughput == b.Throughput)
}

// zvStore is a store holding anything.
func zvStore() *YamlStore {
	y := &YamlStore{Cache: map[string]*Client{}}
	zz.LazyMap(y.Cache, func(k any) any { c := zvClient(); return &c })
	return y
}

func zvSmallStore() *YamlStore {
	y := &YamlStore{Cache: map[string]*Client{}}
	zz.LazyMap(y.Cache, func(k any) any { return &Client{} })
	return y
}

// zvProtocol is a name of a protocol, in lower case, and a way to write it.
func zvProtocol() (lower, written string) {
	switch zz.Enum("protocol", 0, 2) {
	case 0:
		lower, written = "cmpp", "Cmpp"
	case 1:
		lower, written = "sgip", "SGIP"
	default:
		lower, written = "smgp", "smgp"
	}
	return
}

// Loading one account file into any store: afterwards a look-up of the protocol and client id in its name gives what the
// file says, every other look-up gives what it gave before; a file that cannot be read as an account changes nothing.
//
//gov:prop C18
//gov:func unmarshal
//gov:func YamlStore.FindByCid
func ZvUnmarshal() {
	zz.Stub("gopkg.in/yaml.v3.Unmarshal", zvUnmarshal)
	y := zvSmallStore()
	zvParsed = Client{SharedSecret: zz.Str("secret", 1, 20)}
	zvBad = zz.Fork(zz.Bool("malformed"))
	lower, isp := zvProtocol()
	cid := zz.Str("cid", 0, 40)
	id := zz.Str("name", 0, 80)
	old := y.FindByCid(isp, cid)
	unmarshal(zz.Bytes("content", 0, 1000), id, y)
	now := y.FindByCid(isp, cid)
	fileIsp, fileCid, ok := strings.Cut(id, "_")
	if ok && !zvBad && strings.ToLower(fileIsp) == lower && fileCid == cid {
		zz.Ensures("the account of the file is found", now != nil && now.SharedSecret == zvParsed.SharedSecret)
		zz.Ensures("with its protocol", now.ISP == lower)
	} else {
		zz.Ensures("other accounts are not touched", now == old)
	}
}

// Every field of a found account has the value in its file.
//
//gov:prop C18
//gov:func unmarshal
//gov:func YamlStore.FindByCid
func ZvUnmarshalFields() {
	zz.Stub("gopkg.in/yaml.v3.Unmarshal", zvUnmarshal)
	y := zvStore()
	zvParsed = zvClient()
	zvBad = false
	lower, isp := zvProtocol()
	cid := zz.Str("cid", 0, 40)
	data := zz.Bytes("content", 0, 1000)
	unmarshal(data, isp+"_"+cid, y)
	zz.Ensures("the content is parsed", zz.EqBytes(zvData, data))
	now := y.FindByCid(lower, cid)
	zz.Ensures("the account of the file is found", now != nil)
	zz.Ensures("with its protocol", now.ISP == lower)
	zvSame(now, &zvParsed)
}

// A look-up depends on the protocol whatever its case, and on the exact client id.
//
//gov:prop C18
//gov:func YamlStore.FindByCid
//gov:func MongoStore.FindByCid
func ZvFind() {
	y := zvStore()
	lower, isp := zvProtocol()
	cid := zz.Str("cid", 0, 40)
	c := y.FindByCid(isp, cid)
	zz.Ensures("case of the protocol does not matter", y.FindByCid(lower, cid) == c)
	zz.Ensures("what is stored under the key is found", y.Cache[lower+"_"+cid] == c)
	m := (*MongoStore)(y)
	zz.Ensures("both stores find the same", m.FindByCid(isp, cid) == c)
}

type zvFile struct {
	fs.FileInfo
	name string
	dir  bool
}

func (f zvFile) Name() string { return f.name }
func (f zvFile) IsDir() bool  { return f.dir }

type zvConf struct {
	yaml_config.YmlConfig
	path, base string
}

func (c zvConf) GetString(k string) string          { return c.path }
func (c zvConf) BasePath() string                   { return c.base }
func (c zvConf) GetDuration(k string) time.Duration { return time.Second }

var (
	zvFiles []fs.FileInfo
	zvDir   string
	zvRead  []string
)

func zvReadDir(dir string) ([]fs.FileInfo, error) {
	zvDir = dir
	return zvFiles, nil
}

func zvReadFile(name string) ([]byte, error) {
	zvRead = append(zvRead, name)
	return zz.Bytes("content", 0, 1000), nil
}

func zvKey(name string) string {
	if strings.HasSuffix(name, ".yaml") {
		return name[:len(name)-5]
	}
	if strings.HasSuffix(name, ".yml") {
		return name[:len(name)-4]
	}
	return ""
}

// Loading a directory: every account file in it is read, from that directory, whatever else lies there, and no name
// crashes the loading.
//
//gov:prop C18
//gov:func YamlStore.Load
//gov:bounded at most 3 files in the directory
func ZvLoad() {
	zz.Stub("gopkg.in/yaml.v3.Unmarshal", zvUnmarshal)
	zz.Stub("io/ioutil.ReadDir", zvReadDir)
	zz.Stub("io/ioutil.ReadFile", zvReadFile)
	y := zvSmallStore()
	y.Config = zvConf{path: zz.Str("path", 0, 50), base: zz.Str("base", 0, 50)}
	zvBad = true
	zvFiles, zvRead = nil, nil
	n := zz.Enum("files", 0, 3)
	for i := 0; i < n; i++ {
		zvFiles = append(zvFiles, zvFile{name: zz.Str("name", 0, 60), dir: zz.Fork(zz.Bool("dir"))})
	}
	y.Load()
	zz.Ensures("reads below the base path", strings.HasPrefix(zvDir, y.Config.BasePath()))
	j := 0
	for i := 0; i < n; i++ {
		if k := zvKey(zvFiles[i].Name()); k != "" && !zvFiles[i].IsDir() {
			zz.Ensures("every account file is read", j < len(zvRead) && zvRead[j] == zvDir+zvFiles[i].Name())
			j++
		}
	}
	zz.Ensures("nothing else is read", j == len(zvRead))
}

// Loading one file: its account is found afterwards under the protocol and client id in the name of the file.
//
//gov:prop C18
//gov:func YamlStore.Load
//gov:func YamlStore.FindByCid
func ZvLoadFile() {
	zz.Stub("gopkg.in/yaml.v3.Unmarshal", zvUnmarshal)
	zz.Stub("io/ioutil.ReadDir", zvReadDir)
	zz.Stub("io/ioutil.ReadFile", zvReadFile)
	y := zvSmallStore()
	y.Config = zvConf{path: "store/", base: "/"}
	zvParsed = Client{SharedSecret: zz.Str("secret", 1, 20)}
	zvBad = false
	lower, isp := zvProtocol()
	cid := zz.Str("cid", 0, 40)
	ext := ".yaml"
	if zz.Fork(zz.Bool("yml")) {
		ext = ".yml"
	}
	zvFiles, zvRead = []fs.FileInfo{zvFile{name: isp + "_" + cid + ext}}, nil
	y.Load()
	c := y.FindByCid(lower, cid)
	zz.Ensures("the account of the file is found", c != nil && c.SharedSecret == zvParsed.SharedSecret)
}

// ---------------------------------------------------------------- accounts from the database

var (
	zvDocs []Client
	zvNext int
)

func zvFind(coll *mongo.Collection, ctx context.Context, filter any, opts ...*options.FindOptions) (*mongo.Cursor, error) {
	if zvBad {
		return nil, errors.New("find")
	}
	return &mongo.Cursor{}, nil
}

func zvCursorNext(c *mongo.Cursor, ctx context.Context) bool {
	zvNext++
	return zvNext <= len(zvDocs)
}

func zvDecode(c *mongo.Cursor, val any) error {
	*val.(*Client) = zvDocs[zvNext-1]
	return nil
}

func zvDatabase(c *mongo.Client, name string, opts ...*options.DatabaseOptions) *mongo.Database {
	return &mongo.Database{}
}

func zvCollection(c *mongo.Database, name string, opts ...*options.CollectionOptions) *mongo.Collection {
	return &mongo.Collection{}
}

// Loading from the database: every account read is found by its protocol and client id, whatever the case of the protocol.
//
//gov:prop C18
//gov:func MongoStore.Load
//gov:func MongoStore.FindByCid
//gov:bounded at most 2 accounts
func ZvMongoLoad() {
	zz.Stub("(*go.mongodb.org/mongo-driver/mongo.Client).Database", zvDatabase)
	zz.Stub("(*go.mongodb.org/mongo-driver/mongo.Database).Collection", zvCollection)
	zz.Stub("(*go.mongodb.org/mongo-driver/mongo.Collection).Find", zvFind)
	zz.Stub("(*go.mongodb.org/mongo-driver/mongo.Cursor).Next", zvCursorNext)
	zz.Stub("(*go.mongodb.org/mongo-driver/mongo.Cursor).Decode", zvDecode)
	zz.Stub("context.Background", func() context.Context { return nil })
	zz.Stub("context.WithTimeout", func(p context.Context, d time.Duration) (context.Context, context.CancelFunc) { return nil, func() {} })
	m := (*MongoStore)(zvSmallStore())
	zvMongo()
	zvBad = zz.Fork(zz.Bool("fails"))
	zvDocs, zvNext = nil, 0
	n := zz.Enum("accounts", 0, 2)
	for i := 0; i < n; i++ {
		c := Client{ClientId: zz.Str("clientId", 0, 20), SharedSecret: zz.Str("secret", 0, 20)}
		_, c.ISP = zvProtocol()
		zvDocs = append(zvDocs, c)
	}
	if n == 2 {
		zz.Requires(zvDocs[0].ClientId != zvDocs[1].ClientId)
	}
	q, cid := "", zz.Str("cid", 0, 20)
	_, q = zvProtocol()
	old := m.FindByCid(q, cid)
	m.Load()
	now := m.FindByCid(q, cid)
	hit := false
	for i := 0; i < n && !zvBad; i++ {
		if strings.ToLower(zvDocs[i].ISP) == strings.ToLower(q) && zvDocs[i].ClientId == cid {
			hit = true
			zz.Ensures("the account is found", now != nil && now.ClientId == cid && now.SharedSecret == zvDocs[i].SharedSecret)
		}
	}
	if !hit {
		zz.Ensures("nothing else is touched", now == old)
	}
}

func zvMongo() {
	zz.Stub("github.com/hrygo/gosms/database/mongodb.setConnect", func(c yaml_config.YmlConfig, p string) *mongo.Client { return &mongo.Client{} })
	db.InitDB(zvConf{path: "uri"}, "Mongo")
}
