module verif/harness

go 1.22

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/eclipse/paho.mqtt.golang v1.4.3
	github.com/ethereum/go-ethereum v1.13.14
	github.com/gorilla/websocket v1.5.1
	github.com/holiman/uint256 v1.2.4
	github.com/iotaledger/hive.go/constraints v0.0.0-20240320122938-13a946cf3c7a
	github.com/iotaledger/hive.go/core v1.0.0-rc.3.0.20240320122938-13a946cf3c7a
	github.com/iotaledger/hive.go/crypto v0.0.0-20240320122938-13a946cf3c7a
	github.com/iotaledger/hive.go/ierrors v0.0.0-20240320122938-13a946cf3c7a
	github.com/iotaledger/hive.go/lo v0.0.0-20240320122938-13a946cf3c7a
	github.com/iotaledger/hive.go/runtime v0.0.0-20240320122938-13a946cf3c7a
	github.com/iotaledger/hive.go/serializer/v2 v2.0.0-rc.1.0.20240320122938-13a946cf3c7a
	github.com/iotaledger/hive.go/stringify v0.0.0-20240320122938-13a946cf3c7a
	github.com/iotaledger/iota-crypto-demo v0.0.0-20240320124000-d02f37a4fdff
	github.com/iotaledger/iota.go/v4 v4.0.0
	github.com/pasztorpisti/qs v0.0.0-20171216220353-8d6c33ee906c
	github.com/samber/lo v1.39.0
	github.com/stretchr/testify v1.9.0
	golang.org/x/crypto v0.21.0
	gopkg.in/h2non/gock.v1 v1.1.2
)

require (
	filippo.io/edwards25519 v1.1.0 // indirect
	github.com/btcsuite/btcd/btcec/v2 v2.3.2 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/decred/dcrd/dcrec/secp256k1/v4 v4.2.0 // indirect
	github.com/h2non/parth v0.0.0-20190131123155-b4df798d6542 // indirect
	github.com/iancoleman/orderedmap v0.3.0 // indirect
	github.com/iotaledger/hive.go/ds v0.0.0-20240320122938-13a946cf3c7a // indirect
	github.com/kr/text v0.2.0 // indirect
	github.com/mr-tron/base58 v1.2.0 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	golang.org/x/exp v0.0.0-20240213143201-ec583247a57a // indirect
	golang.org/x/net v0.21.0 // indirect
	golang.org/x/sync v0.6.0 // indirect
	golang.org/x/sys v0.18.0 // indirect
	golang.org/x/text v0.14.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

replace github.com/iotaledger/iota.go/v4 => /repo
