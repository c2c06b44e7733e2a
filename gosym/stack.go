package main

import (
	"fmt"
	"os"
	"strings"
)

// stack names the interpreted calls under way, the innermost first.
func (w *W) stack(max int) string {
	var sb strings.Builder

	for i, n := w.depth, 0; i > 0 && n < max && i < len(w.frames); i, n = i-1, n+1 {
		if w.frames[i].fn != nil {
			fmt.Fprintf(&sb, "  in %s\n", w.frames[i].fn.name)
		}
	}

	return sb.String()
}

var allPanics = os.Getenv("GOSYM_PANICS") != ""

// newPanic makes an interpreted panic.
func (w *W) newPanic(v V, where string) *goPanic {
	g := &goPanic{v: v, where: where}
	if verbose {
		g.stack = w.stack(12)
		if allPanics {
			fmt.Fprintf(os.Stderr, "    panic %s\n%s", w.panicText(g), g.stack)
		}
	}

	return g
}
