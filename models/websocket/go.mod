module github.com/gorilla/websocket

go 1.16
