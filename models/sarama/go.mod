module github.com/Shopify/sarama

go 1.16
