module github.com/xdg/scram

go 1.16
