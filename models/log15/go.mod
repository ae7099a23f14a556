module github.com/inconshreveable/log15

go 1.16
