// Package text reads what generated files say, however they are laid out.
package text

import (
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

// Has is whether a list has a string.
func Has(list []string, s string) bool {
	ok := false
	for _, l := range list {
		ok = sym.Or(ok, sym.EqStr(l, s))
	}

	return ok
}

// Includes is whether a list has each string of another.
func Includes(list, part []string) bool {
	ok := true
	for _, s := range part {
		ok = sym.And(ok, Has(list, s))
	}

	return ok
}

// Same is whether two lists have the same strings, in any order.
func Same(a, b []string) bool {
	return len(a) == len(b) && sym.And(Includes(a, b), Includes(b, a))
}

// Rule is a rule of a Makefile.
type Rule struct {
	Target  string
	Prereqs []string
	Recipe  [][]string
}

// Makefile reads the rules of a Makefile, with variables filled in.
func Makefile(s string) []Rule {
	var (
		rules []Rule
		vars  = map[string]string{}
		from  = 0
	)

	for _, l := range strings.Split(strings.ReplaceAll(s, "\\\n", " "), "\n") {
		if strings.HasPrefix(l, "\t") {
			for i := from; i < len(rules); i++ {
				r := &rules[i]
				auto := map[string]string{"@": r.Target, "^": strings.Join(r.Prereqs, " ")}

				if len(r.Prereqs) > 0 {
					auto["<"] = r.Prereqs[0]
				}

				r.Recipe = append(r.Recipe, strings.Fields(fill(l, vars, auto)))
			}

			continue
		}

		if i := strings.IndexByte(l, '#'); i >= 0 {
			l = l[:i]
		}

		if i := strings.IndexByte(l, '='); i > 0 {
			name := strings.TrimSpace(strings.TrimRight(l[:i], ":?+"))
			val := strings.TrimSpace(l[i+1:])

			if l[i-1] == '+' {
				val = vars[name] + " " + val
			}

			vars[name] = val

			continue
		}

		i := strings.IndexByte(l, ':')
		if i < 0 {
			continue
		}

		from = len(rules)
		deps := l[i+1:]

		if j := strings.IndexByte(deps, ';'); j >= 0 {
			deps = deps[:j]
		}

		for _, t := range strings.Fields(fill(l[:i], vars, nil)) {
			rules = append(rules, Rule{Target: t, Prereqs: strings.Fields(fill(deps, vars, nil))})
		}
	}

	return rules
}

// fill fills in the variables of a text.
func fill(s string, vars, auto map[string]string) string {
	out := ""

	for i := 0; i < len(s); i++ {
		if s[i] != '$' || i+1 == len(s) {
			out += s[i : i+1]

			continue
		}

		end := ""

		switch s[i+1] {
		case '(':
			end = ")"
		case '{':
			end = "}"
		}

		name, size := s[i+1:i+2], 2

		if end != "" {
			j := strings.Index(s[i:], end)
			if j < 0 {
				return out + s[i:]
			}

			name, size = s[i+2:i+j], j+1
		}

		if v, ok := auto[name]; ok {
			out += v
		} else if v, ok := vars[name]; ok {
			out += fill(v, vars, auto)
		} else {
			out += s[i : i+size]
		}

		i += size - 1
	}

	return out
}

// Cmd is a command of a CMake file.
type Cmd struct {
	Name string
	Args []string
}

// CMake reads the commands of a CMake file, with the variables that it sets filled in.
func CMake(s string) []Cmd {
	var (
		cmds []Cmd
		cur  *Cmd
		word = ""
		any  = false
		vars = map[string]string{}
	)

	flush := func() {
		if any && cur == nil {
			// The name of a command.
			return
		}

		if any {
			cur.Args = append(cur.Args, strings.Fields(fill(word, vars, nil))...)
		}

		word, any = "", false
	}

	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '#':
			for i < len(s) && s[i] != '\n' {
				i++
			}

			flush()
		case c == '"':
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			flush()
		case c == '(' && cur == nil:
			cur = &Cmd{Name: strings.ToLower(word)}
			word, any = "", false
		case c == ')' && cur != nil:
			flush()

			switch {
			case cur.Name == "set" && len(cur.Args) > 0:
				vars[cur.Args[0]] = strings.Join(cur.Args[1:], " ")
			case cur.Name == "project" && len(cur.Args) > 0:
				vars["PROJECT_NAME"] = cur.Args[0]
			}

			cmds = append(cmds, *cur)
			cur = nil
		default:
			word += s[i : i+1]
			any = true
		}
	}

	return cmds
}

// Func is a function that is declared or defined.
type Func struct {
	Result  string
	Name    string
	Params  []string
	Defined bool
}

// Source is what there is in a C++ file at the top.
type Source struct {
	Includes []string
	Defines  [][]string // Defines are the words of each definition.
	Funcs    []Func
}

// Cpp reads a C++ file.
func Cpp(s string) Source {
	var (
		src  Source
		code = ""
	)

	for _, l := range strings.Split(uncomment(s), "\n") {
		t := strings.TrimSpace(l)

		switch {
		case strings.HasPrefix(t, "#include"):
			src.Includes = append(src.Includes, strings.TrimSpace(t[len("#include"):]))
		case strings.HasPrefix(t, "#define"):
			src.Defines = append(src.Defines, words(t[len("#define"):]))
		case strings.HasPrefix(t, "#"):
		default:
			code += t + " "
		}
	}

	start, depth := 0, 0

	for i := 0; i < len(code); i++ {
		switch c := code[i]; {
		case c == '{':
			if depth == 0 {
				src.add(code[start:i], true)
			}

			depth++
		case c == '}':
			depth--
			start = i + 1
		case c == ';' && depth == 0:
			src.add(code[start:i], false)
			start = i + 1
		}
	}

	return src
}

// uncomment takes out comments.
func uncomment(s string) string {
	out, start := "", 0

	for i := 0; i+1 < len(s); i++ {
		if s[i] != '/' {
			continue
		}

		end := -1

		switch s[i+1] {
		case '/':
			if end = strings.IndexByte(s[i:], '\n'); end < 0 {
				end = len(s) - i
			}
		case '*':
			if end = strings.Index(s[i:], "*/"); end >= 0 {
				end += 2
			}
		}

		if end > 0 {
			out += s[start:i] + " "
			start = i + end
			i = start - 1
		}
	}

	return out + s[start:]
}

// add adds the function whose head is given, if it is one.
func (s *Source) add(head string, defined bool) {
	open := strings.IndexByte(head, '(')
	end := strings.LastIndexByte(head, ')')

	if open < 0 || end < open {
		return
	}

	ws := words(head[:open])
	if len(ws) < 2 {
		return
	}

	f := Func{Result: plain(ws[:len(ws)-1]), Name: ws[len(ws)-1], Defined: defined}

	for _, p := range strings.Split(head[open+1:end], ",") {
		pw := words(p)

		// The last word of more than one is the name, unless it is part of the type.
		if n := len(pw); n > 1 && pw[n-1] != "*" && pw[n-1] != "&" {
			pw = pw[:n-1]
		}

		f.Params = append(f.Params, plain(pw))
	}

	s.Funcs = append(s.Funcs, f)
}

// words are the words of C++, where pointers and references are words.
func words(s string) []string {
	return strings.Fields(strings.ReplaceAll(strings.ReplaceAll(s, "*", " * "), "&", " & "))
}

// plain is a type, without qualifiers.
func plain(ws []string) string {
	var r []string

	for _, w := range ws {
		switch w {
		case "const", "static", "inline", "constexpr", "extern", "&":
		default:
			r = append(r, w)
		}
	}

	return strings.Join(r, " ")
}
