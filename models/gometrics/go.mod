module github.com/rcrowley/go-metrics

go 1.16
