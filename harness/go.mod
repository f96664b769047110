module rvmon
go 1.23
require github.com/acronis/go-raml/v2 v2.0.0
replace github.com/acronis/go-raml/v2 => /repo
require (
	github.com/acronis/go-stacktrace v0.4.0
	github.com/antlr4-go/antlr/v4 v4.13.0
	github.com/stretchr/testify v1.9.0
	github.com/wk8/go-ordered-map/v2 v2.1.8
	github.com/zeebo/xxh3 v1.0.2
	gopkg.in/yaml.v3 v3.0.1
)
require (
	github.com/bahlo/generic-list-go v0.2.0 // indirect
	github.com/buger/jsonparser v1.1.1 // indirect
	github.com/davecgh/go-spew v1.1.2-0.20180830191138-d8f796af33cc // indirect
	github.com/klauspost/cpuid/v2 v2.2.5 // indirect
	github.com/mailru/easyjson v0.7.7 // indirect
	github.com/pmezard/go-difflib v1.0.1-0.20181226105442-5d4384ee4fb2 // indirect
	golang.org/x/exp v0.0.0-20230515195305-f3d0a9c9a5cc // indirect
	golang.org/x/sys v0.28.0 // indirect
)
