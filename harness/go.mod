module secsverif

go 1.23

require (
	github.com/younglifestyle/secs4go v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/ahmetb/go-linq/v3 v3.2.0 // indirect
	github.com/anishathalye/porcupine v1.3.1
	github.com/looplab/fsm v1.0.1
	github.com/spf13/cast v1.10.0 // indirect
	go.uber.org/atomic v1.11.0 // indirect
	go.uber.org/multierr v1.10.0 // indirect
	go.uber.org/zap v1.27.1 // indirect
	gopkg.in/natefinch/lumberjack.v2 v2.2.1 // indirect
)

replace github.com/younglifestyle/secs4go => /repo
