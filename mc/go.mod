module goslicemc

go 1.21

require (
	github.com/aligator/goslice v0.0.0
	github.com/spf13/pflag v1.0.5
)

require (
	github.com/aligator/go.clipper v0.0.0-20200424185851-fc8a51077d44 // indirect
	github.com/furstenheim/go-convex-hull-2d v0.0.0-20181121204724-08788ab09726 // indirect
	github.com/hschendel/stl v1.0.4 // indirect
)

replace github.com/aligator/goslice => /repo
