module verif

go 1.23

require (
	github.com/mlange-42/bbn v0.0.0
	gopkg.in/yaml.v3 v3.0.1
	pgregory.net/rapid v1.3.0
)

replace github.com/mlange-42/bbn => /repo
