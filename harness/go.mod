module gtverif

go 1.24

require (
	github.com/urban-wombat/gotables v0.0.0
	pgregory.net/rapid v1.3.0
	gopkg.in/yaml.v3 v3.0.1
)

replace github.com/urban-wombat/gotables => /repo
