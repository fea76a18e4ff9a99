module verif/harness

go 1.23.0

require (
	github.com/foomo/gotsrpc/v2 v2.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/foomo/gotsrpc/v2 => /repo

require (
	github.com/davecgh/go-spew v1.1.1
	github.com/iancoleman/strcase v0.2.0 
	github.com/mitchellh/mapstructure v1.5.0
	github.com/pkg/errors v0.9.1
	github.com/prometheus/client_golang v1.21.1
	github.com/stretchr/testify v1.10.0
	github.com/ugorji/go/codec v1.2.12
	github.com/valyala/gorpc v0.0.0-20160519171614-908281bef774
	golang.org/x/mod v0.24.0
	golang.org/x/tools v0.31.0
	gopkg.in/yaml.v2 v2.4.0
)

require (
	github.com/beorn7/perks v1.0.1 // indirect
	github.com/cespare/xxhash/v2 v2.3.0 // indirect
	github.com/kr/text v0.2.0 // indirect
	github.com/munnerz/goautoneg v0.0.0-20191010083416-a7dc8b61c822 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/prometheus/client_model v0.6.1 // indirect
	github.com/prometheus/common v0.62.0 // indirect
	github.com/prometheus/procfs v0.15.1 // indirect
	golang.org/x/sync v0.12.0 // indirect
	golang.org/x/sys v0.31.0 // indirect
	google.golang.org/protobuf v1.36.1 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)
