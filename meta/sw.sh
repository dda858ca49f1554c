#!/bin/bash
# fresh scratch copy of /repo in /tmp/sw
rm -rf /tmp/sw; cp -a /repo /tmp/sw
