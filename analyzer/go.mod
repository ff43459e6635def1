module verif/analyzer

go 1.26.0

require (
	github.com/iancoleman/strcase v0.0.0-20180726023541-3605ed457bf7
	github.com/lyft/protoc-gen-star v0.5.3
	golang.org/x/tools v0.52.0
	google.golang.org/protobuf v1.26.0
)

require golang.org/x/text v0.3.3 // indirect

require (
	github.com/golang/protobuf v1.5.2 // indirect
	github.com/spf13/afero v1.3.4
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)
