package scen

import "golang.org/x/tools/go/ssa"

type ssaFunction = ssa.Function
