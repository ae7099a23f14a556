module github.com/openrelayxyz/cardinal-rpc

go 1.18

require github.com/openrelayxyz/cardinal-types v1.0.0
require github.com/gorilla/websocket v1.4.2
