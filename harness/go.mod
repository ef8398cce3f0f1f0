module verifharness

go 1.22.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/awcullen/opcua v0.0.0
	github.com/djherbis/buffer v1.2.0
	github.com/google/uuid v1.6.0
	github.com/gopcua/opcua v0.6.1
)

require (
	github.com/gammazero/deque v1.0.0 // indirect
	github.com/gammazero/workerpool v1.1.3 // indirect
	github.com/pkg/errors v0.9.1 // indirect
)

replace github.com/awcullen/opcua => /repo
