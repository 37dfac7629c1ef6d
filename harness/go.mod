module verif/harness

go 1.27

replace github.com/unit-io/unitdb => /repo

require (
	github.com/DisposaBoy/JsonConfigReader v0.0.0-20201129172854-99cf318d67e7
	github.com/golang/protobuf v1.5.2
	github.com/golang/snappy v0.0.3
	github.com/gorilla/websocket v1.4.2
	github.com/rs/zerolog v1.21.0
	github.com/unit-io/bpool v0.0.0-20200906005724-1643bbf59264
	github.com/unit-io/unitdb v0.0.0
	golang.org/x/crypto v0.0.0-20210322153248-0c34fe9e7dc2
	golang.org/x/net v0.0.0-20210405180319-a5a99cb37ef4
	google.golang.org/grpc v1.39.0
)

require golang.org/x/sys v0.0.0-20210330210617-4fbd30eecc44 // indirect
