package cxx

import (
	"fmt"
	"strings"
)

// Dump renders a tree for reading.
func (n *Node) Dump() string {
	var sb strings.Builder
	n.dump(&sb, 0)
	return sb.String()
}

func (n *Node) dump(sb *strings.Builder, d int) {
	if n == nil {
		return
	}
	fmt.Fprintf(sb, "%s%s %s", strings.Repeat(" ", d), n.Kind, n.Name)
	if n.Type != nil {
		fmt.Fprintf(sb, " <%s>", n.T())
	}
	if n.Value.Set {
		fmt.Fprintf(sb, " val=%s", n.Value.S)
	}
	for _, s := range []string{n.Opcode, n.Cast, n.Member} {
		if s != "" {
			fmt.Fprintf(sb, " %s", s)
		}
	}
	if n.Ref != nil {
		fmt.Fprintf(sb, " ref=%s %s(%s)", n.Ref.Kind, n.Ref.Name, n.Ref.ID)
	}
	sb.WriteString(" #" + n.ID + "\n")
	for _, c := range n.Inner {
		c.dump(sb, d+1)
	}
}
