package main

import (
	"fmt"
	"path"
	"strings"
)

// brief renders a term for people: conjunctions as such, source paths shortened.
func brief(t *Term) string {
	if t == nil {
		return "<none>"
	}
	return bshow(t, 0)
}

func bargs(as []*Term, d int) string {
	var s []string
	for _, a := range as {
		s = append(s, bshow(a, d))
	}
	return strings.Join(s, ", ")
}

func bshow(t *Term, depth int) string {
	if depth > 40 {
		return "…"
	}
	d := depth + 1
	switch t.op {
	case "ite":
		if t.args[1] == tFalse && t.args[2] == tTrue {
			return "!" + bshow(t.args[0], d)
		}
		if t.args[1] == tFalse {
			return "!" + bshow(t.args[0], d) + " && " + bshow(t.args[2], d)
		}
		if t.args[2] == tFalse {
			return bshow(t.args[0], d) + " && " + bshow(t.args[1], d)
		}
		return "(" + bshow(t.args[0], d) + " ? " + bshow(t.args[1], d) + " : " + bshow(t.args[2], d) + ")"
	case "lin":
		var sb strings.Builder
		for i, a := range t.args {
			k := t.coefs[i]
			switch {
			case k == -1:
				sb.WriteString("-")
			case k < 0:
				fmt.Fprintf(&sb, "%d", k)
			default:
				if i > 0 {
					sb.WriteString("+")
				}
				if k != 1 {
					fmt.Fprintf(&sb, "%d", k)
				}
			}
			sb.WriteString(bshow(a, d))
		}
		if t.iv != 0 {
			fmt.Fprintf(&sb, "%+d", t.iv)
		}
		return sb.String()
	case "fld", "bfld":
		return bshow(t.args[0], d) + "." + t.sym
	case "sel", "bsel":
		return bshow(t.args[0], d) + "[" + bshow(t.args[1], d) + "]"
	case "ge0":
		return bshow(t.args[0], d) + ">=0"
	case "eq0":
		return bshow(t.args[0], d) + "==0"
	case "eq":
		return bshow(t.args[0], d) + "==" + bshow(t.args[1], d)
	case "batom":
		return bshow(t.args[0], d)
	case "loc":
		s := bshow(t.args[0], d)
		for _, a := range t.args[1:] {
			if a.op == "F" {
				s += "." + a.sym
			} else {
				s += "[" + bshow(a, d) + "]"
			}
		}
		return s
	case "alloc":
		s := t.String()
		if i := strings.Index(s, "<"); i >= 0 {
			s = s[i+1:]
		}
		s = strings.TrimSuffix(s, ">")
		if i := strings.Index(s, "@"); i >= 0 {
			rest := s[i+1:]
			ln := rest
			if j := strings.Index(rest, ":"); j >= 0 {
				ln = rest[j+1:]
			}
			if j := strings.IndexAny(ln, ":;"); j >= 0 {
				ln = ln[:j]
			}
			idx := ""
			if len(t.args) > 0 {
				idx = "{" + bargs(t.args, d) + "}"
			}
			return s[:i] + "@" + ln + idx
		}
		return s
	case "recv":
		if len(t.args) > 0 && t.args[0].op == "mailbox" {
			return "m⟨" + strings.Trim(t.args[0].args[0].String(), `"`) + "⟩"
		}
		return "rcv⟨" + bargs(t.args[:1], d) + "⟩"
	case "mu":
		return "μ(" + bshow(t.args[0], d) + ")"
	case "unm":
		return "dec(" + bargs(t.args, d) + ")"
	case "res":
		n := len(t.args)
		if n > 3 {
			n = 3
		}
		return t.sym + "(" + bargs(t.args[:n], d) + ")"
	case "struct":
		s := t.String()
		return path.Base(s[:strings.Index(s+"(", "(")]) + "(" + bargs(t.args, d) + ")"
	case "seq", "forall", "exists", "first":
		s := t.String()
		return s[:strings.Index(s+"(", "(")] + "(" + bargs(t.args, d) + ")"
	}
	if len(t.args) == 0 {
		return t.String()
	}
	s := t.String()
	if i := strings.Index(s, "("); i > 0 {
		return path.Base(s[:i]) + "(" + bargs(t.args, d) + ")"
	}
	return s
}
