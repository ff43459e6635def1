package absint

import (
	"strings"

	pgs "github.com/lyft/protoc-gen-star"
	"golang.org/x/tools/go/ssa"
)

func init() {
	comment := func(in *Interp, wrap int, s string) string {
		if HasHole(s) {
			return "// " + strings.ReplaceAll(s, "\n", "\n// ") + "\n"
		}
		return pgs.C(wrap, s)
	}
	{
		intrinsics["github.com/lyft/protoc-gen-star.C80"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			return comment(in, 80, in.Sprint(variadic(a[0]), false))
		}
		intrinsics["github.com/lyft/protoc-gen-star.C"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			w, ok := a[0].(int64)
			if !ok {
				in.Undecided("comment width")
			}
			return comment(in, int(w), in.Sprint(variadic(a[1]), false))
		}
	}
}
