module verif/harness

go 1.25.0

require (
	github.com/Shopify/sarama v1.28.0
	github.com/gorilla/websocket v1.4.2
	github.com/hashicorp/golang-lru v0.5.5-0.20210104140557-80c98217689d
	github.com/openrelayxyz/cardinal-rpc v1.1.0
	github.com/openrelayxyz/cardinal-streams/v2 v2.0.0
	github.com/openrelayxyz/cardinal-types v1.0.0
)

require (
	github.com/hamba/avro v1.6.6 // indirect
	github.com/inconshreveable/log15 v0.0.0-20201112154412-8562bdadbbac // indirect
	github.com/json-iterator/go v1.1.12 // indirect
	github.com/modern-go/concurrent v0.0.0-20180306012644-bacd9c7ef1dd // indirect
	github.com/modern-go/reflect2 v1.0.2 // indirect
	github.com/openrelayxyz/drumline v1.0.1 // indirect
	github.com/rcrowley/go-metrics v0.0.0-20201227073835-cf1acfcdf475 // indirect
	github.com/xdg/scram v1.0.3 // indirect
)

replace (
	github.com/Shopify/sarama => ../models/sarama
	github.com/gorilla/websocket => ../models/websocket
	github.com/inconshreveable/log15 => ../models/log15
	github.com/openrelayxyz/cardinal-rpc => ../models/rpc
	github.com/openrelayxyz/cardinal-streams/v2 => /repo
	github.com/rcrowley/go-metrics => ../models/gometrics
	github.com/xdg/scram => ../models/scram
)
