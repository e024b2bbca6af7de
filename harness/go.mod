module negotiatorverif

go 1.23

require (
	github.com/freerware/negotiator v0.0.0
	pgregory.net/rapid v1.3.0
	github.com/golang/mock v1.6.0
	github.com/stretchr/stew v0.0.0-20130812190256-80ef0842b48b
	github.com/stretchr/testify v1.8.4
	github.com/uber-go/tally v3.5.6+incompatible
	go.uber.org/zap v1.26.0
	golang.org/x/text v0.14.0
	gopkg.in/yaml.v2 v2.4.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/twmb/murmur3 v1.1.8 // indirect
	go.uber.org/atomic v1.11.0 // indirect
	go.uber.org/multierr v1.10.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

replace github.com/freerware/negotiator => /repo
