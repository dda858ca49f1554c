#!/usr/bin/env python3-vt
# Regenerates properties.jsonl and MANIFEST.json from the table below.
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,claimed=True,na=None,note='',state=None):
    P.append(dict(id=id,title=title,statement=statement,over=over,text=text,why=why,files=files,mech=mech,claimed=claimed,na=na,note=note,state=state))

p('C01','CMPP packets survive the wire unchanged, in both 2.x and 3.x formats',
 'For every CMPP packet whose fields fit their fixed widths, in the 2.x and in the 3.x format, encoding gives a frame whose length, length word, command and sequence are the declared ones and whose fields stand at the offsets and in the byte order of the protocol. Decoding that frame gives back the same value of every field, including the receiver list, the message content (the text of a delivery, the text after the user data header of a segment) and an embedded status report. A text too long for one delivery is cut to the longest prefix that fits, without splitting a character.',
 ['inputs'],'all field values and lengths up to their fixed widths, all receiver counts 0-255, all content lengths 0-255, all texts, all versions',
 'The tests encode a handful of fixed packets; field values, lengths, receiver counts and versions range over a space they only sample.',
 ['codec/cmpp/connect.go','codec/cmpp/submit.go','codec/cmpp/delivery.go','codec/cmpp/report.go','codec/cmpp/active.go','codec/cmpp/terminate.go','codec/cmpp/header.go','codec/packer.go','utils/utils.go'],
 'Encode/Decode of every CMPP packet type, the version dependent field widths, message content conversion')
p('C02','SMGP packets survive the wire unchanged, optional parameters included',
 'For every SMGP packet whose fields fit their fixed widths, encoding gives a frame whose length, length word, command and sequence are the declared ones and whose fields stand at the offsets and in the byte order of the protocol, followed by its optional parameters. Decoding that frame gives back the same value of every field, including the receiver list, the text its content stands for in the declared format, the optional parameters of a submit and an embedded status report (the reserved field and optional parameters of a delivery are written and not read back).',
 ['inputs'],'all field values and lengths up to their fixed widths, all receiver counts, all content lengths, all texts',
 'The tests encode a handful of fixed packets; field values, lengths and receiver counts range over a space they only sample.',
 ['codec/smgp/login.go','codec/smgp/submit.go','codec/smgp/deliver.go','codec/smgp/report.go','codec/smgp/active.go','codec/smgp/exit.go','codec/smgp/header.go'],
 'Encode/Decode of every SMGP packet type')
p('C03','SGIP packets survive the wire unchanged',
 'For every SGIP packet whose fields fit their fixed widths, encoding gives a frame whose length, length word, command and three-word sequence are the declared ones and whose fields stand at the offsets and in the byte order of the protocol. Decoding that frame gives back the same value of every field, including the list of receivers and the message content (for a part of a long message: what follows its user data header, as text when it is UCS-2); the reserved field is written as given and left empty on decoding.',
 ['inputs'],'all field values and lengths up to their fixed widths, all receiver counts, all content lengths, all texts',
 'The tests encode a handful of fixed packets; field values, lengths and receiver counts range over a space they only sample.',
 ['codec/sgip/bind.go','codec/sgip/submit.go','codec/sgip/deliver.go','codec/sgip/report.go','codec/sgip/unbind.go','codec/sgip/header.go'],
 'Encode/Decode of every SGIP packet type')
p('C04','Decoding whatever bytes a peer sends never crashes and rejects short bodies',
 'Decoding any byte string as the body of any CMPP, SMGP or SGIP packet type, for any version, terminates without a panic. A body too short to hold the fields it declares (fixed part, receiver list, content, optional parameters) is reported as an error instead of being decoded, and a decoded packet can be logged and answered without a panic.',
 ['inputs','fault_sequences'],'all byte strings of every length up to the maximum packet size',
 'Malformed input is unbounded; the tests only decode bodies the encoder itself produced.',
 ['codec/cmpp','codec/smgp','codec/sgip','utils/tlv.go','codec/packer.go'],
 'the Decode, Log and ToResponse methods of every packet type')
exec(open(os.path.join(os.path.dirname(__file__),'more.py')).read())
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root+'/properties.jsonl','w') as f:
    for q in P:
        a=dict(files=q['files'],mechanism=q['mech'])
        if q['state']: a['state']=q['state']
        f.write(json.dumps(dict(id=q['id'],title=q['title'],statement=q['statement'],quantifier=dict(over=q['over'],text=q['text']),why_tests_cant=q['why'],anchors=a),ensure_ascii=False)+'\n')
m=dict(version=1,setup_cmd='./check.sh build',hooks=dict(guard='none',enable='no hooks: contracts are overlaid on the real packages at load time',source_commits=[]),checks=[],not_applicable=[])
for q in P:
    if q['claimed']:
        m['checks'].append(dict(property=q['id'],quick_cmd='./check.sh %s quick'%q['id'],thorough_cmd='./check.sh %s thorough'%q['id'],technique='contract-based deductive verification: contracts in Go on the real functions, weakest-precondition/symbolic execution of the SSA of /repo, obligations discharged by z3 and cvc5',level='proof',level_note=q['note'] or 'all inputs within the stated preconditions; no bound on lengths other than those of the protocol'))
    else:
        m['not_applicable'].append(dict(property=q['id'],reason=q['na']))
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
