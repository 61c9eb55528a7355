module verif/harness

go 1.23

require (
	github.com/cpuguy83/go-md2man/v2 v2.0.1 // indirect
	github.com/gertd/go-pluralize v0.1.7
	github.com/google/go-cmp v0.5.6
	github.com/iancoleman/strcase v0.2.0
	github.com/pingcap/check v0.0.0-20200212061837-5e12011dc712 // indirect
	github.com/pingcap/errors v0.11.5-0.20190809092503-95897b64e011 // indirect
	github.com/pingcap/log v0.0.0-20210906054005-afc726e70354 // indirect
	github.com/pingcap/parser v0.0.0-20200623164729-3a18f1e5dceb
	github.com/smartystreets/goconvey v1.6.4
	github.com/tealeg/xlsx v1.0.5
	github.com/urfave/cli/v2 v2.3.0
	github.com/xwb1989/sqlparser v0.0.0-20180606152119-120387863bf2
	go.uber.org/atomic v1.9.0 // indirect
	go.uber.org/multierr v1.7.0 // indirect
	go.uber.org/zap v1.19.1 // indirect
	golang.org/x/text v0.3.8 // indirect
	gopkg.in/yaml.v2 v2.4.0
)

require (
	github.com/gopherjs/gopherjs v0.0.0-20181017120253-0766667cb4d1 // indirect
	github.com/jtolds/gls v4.20.0+incompatible // indirect
	github.com/russross/blackfriday/v2 v2.1.0 // indirect
	github.com/smartystreets/assertions v0.0.0-20180927180507-b2de0cb4f26d // indirect
	gopkg.in/natefinch/lumberjack.v2 v2.0.0 // indirect
)

require pgregory.net/rapid v1.3.0
