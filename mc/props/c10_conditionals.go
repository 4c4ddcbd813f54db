package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// The reference model of conditional preprocessing: a stack of truth values, the attributes set so
// far, and the text lines which are kept.
type condModel struct {
	over  map[string]string // attributes set by the caller: always win
	attrs map[string]string
	stack []bool
	out   []string
}

func (m *condModel) enabled() bool {
	for _, e := range m.stack {
		if !e {
			return false
		}
	}
	return true
}

func (m *condModel) get(k string) (string, bool) {
	if v, ok := m.over[k]; ok {
		return v, true
	}
	v, ok := m.attrs[k]
	return v, ok
}

func (m *condModel) key() string {
	return fmt.Sprint(m.over, m.attrs, m.stack, m.out)
}

type condOp struct {
	line  string
	apply func(m *condModel, w string)
}

func condOps() []condOp {
	ops := []condOp{
		{"TEXT", func(m *condModel, w string) {
			if m.enabled() {
				m.out = append(m.out, w)
			}
		}},
	}
	for _, a := range []string{"aa", "bb"} {
		a := a
		ops = append(ops,
			condOp{"ifdef::" + a + "[]", func(m *condModel, _ string) { _, ok := m.get(a); m.stack = append(m.stack, ok) }},
			condOp{"ifndef::" + a + "[]", func(m *condModel, _ string) { _, ok := m.get(a); m.stack = append(m.stack, !ok) }},
		)
	}
	ops = append(ops,
		condOp{"endif::[]", func(m *condModel, _ string) {
			if len(m.stack) > 0 {
				m.stack = m.stack[:len(m.stack)-1]
			}
		}},
		condOp{":aa: v1", func(m *condModel, _ string) {
			if m.enabled() {
				m.attrs["aa"] = "v1"
			}
		}},
		condOp{":!aa:", func(m *condModel, _ string) {
			if m.enabled() {
				delete(m.attrs, "aa")
			}
		}},
		condOp{"ifdef::aa[TEXT]", func(m *condModel, w string) {
			if _, ok := m.get("aa"); ok && m.enabled() {
				m.out = append(m.out, w)
			}
		}},
		condOp{"ifndef::aa[TEXT]", func(m *condModel, w string) {
			if _, ok := m.get("aa"); !ok && m.enabled() {
				m.out = append(m.out, w)
			}
		}},
		condOp{`ifeval::["{aa}" == "v1"]`, func(m *condModel, _ string) { v, _ := m.get("aa"); m.stack = append(m.stack, v == "v1") }},
		condOp{":bb!:", func(m *condModel, _ string) {
			if m.enabled() {
				delete(m.attrs, "bb")
			}
		}},
		condOp{":bb: v2", func(m *condModel, _ string) {
			if m.enabled() {
				m.attrs["bb"] = "v2"
			}
		}},
		condOp{`ifeval::["{bb}" != "{aa}"]`, func(m *condModel, _ string) {
			// an unset attribute is never equal to a set one; two unset ones keep their (different) references
			l, lok := m.get("bb")
			r, rok := m.get("aa")
			if lok != rok || !lok {
				m.stack = append(m.stack, false) // not comparable: see the generator, which avoids the case
				return
			}
			m.stack = append(m.stack, l != r)
		}},
	)
	return ops
}

// condSeq: all the sequences of `depth` operations, each sequence closed by endifs and a final word.
func condSeq(name string, depth int, sep string, overrides []map[string]string, within [2]string, opsel []int, backend string) core.Family {
	ops := condOps()
	if opsel != nil {
		sel := []condOp{}
		for _, i := range opsel {
			sel = append(sel, ops[i])
		}
		ops = sel
	}
	return core.Family{Name: name, Gen: func(g *core.Gen) *core.Case {
		m := &condModel{attrs: map[string]string{}}
		m.over = overrides[g.Choose(len(overrides))]
		lines := []string{}
		for i := 0; i < depth; i++ {
			op := ops[g.Choose(len(ops))]
			if strings.Contains(op.line, "{bb}") || strings.Contains(op.line, `"{aa}"`) {
				// references to attributes that are not set are out of the model
				_, a := m.get("aa")
				_, b := m.get("bb")
				if !a || (strings.Contains(op.line, "{bb}") && !b) {
					return g.Skip()
				}
			}
			w := fmt.Sprintf("w%d", i)
			lines = append(lines, strings.ReplaceAll(op.line, "TEXT", w))
			op.apply(m, w)
			g.State(name, m.key())
		}
		// what is still open at the end of the document excludes the remainder; close all of it
		open := len(m.stack)
		if m.enabled() {
			m.out = append(m.out, "wpen")
		}
		lines = append(lines, "wpen")
		for i := 0; i < open; i++ {
			lines = append(lines, "endif::[]")
		}
		lines = append(lines, "wend")
		m.out = append(m.out, "wend")
		src := within[0] + strings.Join(lines, sep) + within[1]
		over := map[string]interface{}{}
		for k, v := range m.over {
			over[k] = v
		}
		expected := strings.Join(m.out, " ")
		return &core.Case{
			Desc: fmt.Sprintf("attributes=%v source=%q", m.over, src),
			Check: func(r *core.Run) error {
				d, err := lib.DOM(src, lib.Opts{Attrs: over, Backend: backend})
				if err != nil {
					return err
				}
				got := strings.Join(lib.Words(d.Content(), "w"), " ")
				r.Outcome(got)
				if got != expected {
					return fmt.Errorf("kept lines: expected %q, got %q", expected, got)
				}
				if strings.Contains(d.Content(), "::") {
					return fmt.Errorf("a directive is left in the output: %q", d.Content())
				}
				return nil
			},
		}
	}}
}

// condEval: every comparison operator on every pair of operands and quoting.
func condEval() core.Family {
	vals := []string{"", "1", "2", "10", "a", "b", "ab", "B"}
	operators := map[string]func(l, r string) bool{
		"==": func(l, r string) bool { return l == r },
		"!=": func(l, r string) bool { return l != r },
		"<":  func(l, r string) bool { return l < r },
		"<=": func(l, r string) bool { return l <= r },
		">":  func(l, r string) bool { return l > r },
		">=": func(l, r string) bool { return l >= r },
	}
	names := []string{"==", "!=", "<", "<=", ">", ">="}
	return core.Family{Name: "ifeval-operators", Gen: func(g *core.Gen) *core.Case {
		l := core.PickOf(g, vals)
		op := core.PickOf(g, names)
		r := core.PickOf(g, vals)
		lform := g.Choose(3) // attribute reference in double or single quotes, literal
		rform := g.Choose(3)
		space := g.Pick(" ", "")
		src := ""
		operand := func(form int, n, v string) string {
			switch form {
			case 0:
				src += ":" + n + ": " + v + "\n"
				return `"{` + n + `}"`
			case 1:
				src += ":" + n + ": " + v + "\n"
				return `'{` + n + `}'`
			default:
				return `"` + v + `"`
			}
		}
		if l == "" || r == "" {
			return g.Skip()
		}
		lo := operand(lform, "left", l)
		ro := operand(rform, "right", r)
		src += "\nifeval::[" + lo + space + op + space + ro + "]\nwin\nendif::[]\nwend\n"
		want := operators[op](l, r)
		g.State("eval", l, op, r, want)
		return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(run *core.Run) error {
			d, err := lib.DOM(src, lib.Opts{})
			if err != nil {
				return err
			}
			got := d.Inline()
			run.Outcome(got)
			expected := "wend"
			if want {
				expected = "win wend"
			}
			if got != expected {
				return fmt.Errorf("expected %q, got %q", expected, got)
			}
			return nil
		}}
	}}
}

// condNest: conditionals nested up to depth d, with every truth assignment, text before and after each.
func condNest(depth int) core.Family {
	return core.Family{Name: "nesting", Gen: func(g *core.Gen) *core.Case {
		lines := []string{":on:", ""}
		out := []string{}
		enabled := true
		n := 0
		word := func() {
			w := fmt.Sprintf("w%d", n)
			n++
			lines = append(lines, w)
			if enabled {
				out = append(out, w)
			}
		}
		var rec func(d int)
		rec = func(d int) {
			if d == 0 {
				word()
				return
			}
			saved := enabled
			kind := g.Choose(6)
			lines = append(lines, []string{"ifdef::on[]", "ifdef::off[]", "ifndef::on[]", "ifndef::off[]", `ifeval::["1" == "1"]`, `ifeval::["1" == "2"]`}[kind])
			enabled = enabled && kind%2 == 0 != (kind/2 == 1)
			word()
			rec(d - 1)
			word()
			lines = append(lines, g.Pick("endif::[]", "endif::on[]"))
			enabled = saved
			word()
			g.State("nest", d, enabled, len(out), out)
		}
		rec(depth)
		src := strings.Join(lines, "\n")
		expected := strings.Join(out, " ")
		return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(run *core.Run) error {
			d, err := lib.DOM(src, lib.Opts{})
			if err != nil {
				return err
			}
			got := d.Inline()
			run.Outcome(got)
			if got != expected {
				return fmt.Errorf("expected %q, got %q", expected, got)
			}
			return nil
		}}
	}}
}

// condSkip: what a region excluded by a condition contains has no effect at all on the rest.
func condSkip() core.Family {
	region := []string{
		"include::no-such-file.adoc[]", "include::no-such-dir/no-such-file.adoc[tag=x]", ":aa: changed", ":!zz:", ":zz!:",
		"----", "====", "|===", "////", "++++", "== wsection", "* witem", "[source]", ".wtitle", "ifdef::zz[wsingle]", "ifndef::zz[wsingle]",
		"ifdef::nope[]\nwx\nendif::[]", "ifdef::zz[]\nwx\nendif::[]", "footnote:[wnote]", "{counter:cc}", "image::wimg.png[]", "wtext",
		"ifeval::[\"{zz}\" == \"zv\"]\nwx\nendif::[]", "[[wid]]", "ifdef::zz[]\n:aa: changed\nendif::[]",
	}
	tail := []string{"wtail {aa} {zz} {counter:cc} footnote:[wn]", "----\nwtail {aa}\n----", "== wsection\n\nwtail", "* wtail\n* wtail2", "ifdef::zz[wtail]", "ifdef::aa[]\nwtail\nendif::[]", "|===\n|wtail\n|==="}
	return core.Family{Name: "excluded-regions", Gen: func(g *core.Gen) *core.Case {
		n := 1 + g.Choose(2)
		cond := g.Pick("ifdef::nope[]", "ifndef::zz[]", `ifeval::["{zz}" == "other"]`, "ifdef::zz[]\nifdef::nope[]")
		inner := ""
		for i := 0; i < n; i++ {
			inner += core.PickOf(g, region) + "\n"
		}
		t := core.PickOf(g, tail)
		end := "endif::[]\n"
		if strings.Contains(cond, "\n") {
			end += end
		}
		with := ":aa: av\n:zz: zv\n\nwhead\n\n" + cond + "\n" + inner + end + "\n" + t + "\n"
		without := ":aa: av\n:zz: zv\n\nwhead\n\n\n" + t + "\n"
		g.State("skip", cond, inner)
		return &core.Case{Desc: fmt.Sprintf("source=%q", with), Check: func(run *core.Run) error {
			a, err := lib.DOM(with, lib.Opts{})
			if err != nil {
				return err
			}
			b, err := lib.DOM(without, lib.Opts{})
			if err != nil {
				return err
			}
			run.Outcome(a.Canon())
			if a.Canon() != b.Canon() {
				return fmt.Errorf("an excluded region has an effect:\nwith:    %s\nwithout: %s", a.Brief(), b.Brief())
			}
			return nil
		}}
	}}
}

// condBackends: the conditions on the backend
func condBackends() core.Family {
	return core.Family{Name: "backends", Gen: func(g *core.Gen) *core.Case {
		b := g.Pick("", "html", "html5", "xhtml", "xhtml5")
		name := b
		if name == "" {
			name = "html5"
		}
		other := g.Pick("html", "html5", "xhtml", "xhtml5", "docbook5")
		cond := core.PickOf(g, []struct {
			src  string
			kept bool
		}{
			{"ifdef::basebackend-html[]", true}, {"ifndef::basebackend-html[]", false}, {"ifdef::backend[]", true}, {"ifdef::basebackend-docbook[]", false},
			{"ifeval::[\"{backend}\" == \"" + other + "\"]", name == other}, {"ifeval::[\"{backend}\" != \"" + other + "\"]", name != other},
		})
		src := g.Pick("", "= T\n\n", "x\n\n") + cond.src + "\nwkept\nendif::[]\n"
		return &core.Case{Desc: fmt.Sprintf("%q backend %s", src, b), Check: func(r *core.Run) error {
			out, _, err := lib.Convert(src, lib.Opts{Backend: b})
			if err != nil {
				return err
			}
			r.Outcome(out)
			if strings.Contains(out, "wkept") != cond.kept {
				return fmt.Errorf("the line is kept: %v, expected: %v\n%s", !cond.kept, cond.kept, out)
			}
			return nil
		}}
	}}
}

// condBlocks: entries for attributes within verbatim blocks have no effect, whatever the lines of the block look like
func condBlocks() core.Family {
	return core.Family{Name: "blocks", Gen: func(g *core.Gen) *core.Case {
		delims := []string{"----", "....", "```", "////", "++++", "-----", ".....", "/////"}
		open := core.PickOf(g, delims)
		lines := []string{"wa", "----", "....", "```", "====", "--", "|===", "****", "////", "++++", "------", " ----"}
		outer := core.PickOf(g, [][2]string{{"", ""}, {"====\n", "\n===="}, {"--\n", "\n--"}, {"****\n", "\n****"}, {"* wb\n+\n", ""}})
		src := outer[0] + open + "\n"
		before := core.PickOf(g, lines)
		after := core.PickOf(g, lines)
		if before == open || after == open || outer[0] != "" && (strings.HasPrefix(outer[0], before+"\n") || strings.HasPrefix(outer[0], after+"\n")) { // (the end of the block)
			return g.Skip()
		}
		entry := g.Pick(":aa: v1", ":!aa:", ":aa!:")
		src += before + "\n" + entry + "\n" + after + "\n" + open + outer[1] + "\n\n"
		set := g.Bool()
		if set {
			src = ":aa: v0\n\n" + src
		}
		cond := g.Choose(5)
		kept := []bool{set, !set, set, !set, set}[cond]
		src += []string{"ifdef::aa[]\nwkept\nendif::[]\n", "ifndef::aa[]\nwkept\nendif::[]\n", "ifdef::aa[wkept]\n", "ifndef::aa[wkept]\n", "ifeval::[\"{aa}\" == \"v0\"]\nwkept\nendif::[]\n"}[cond]
		return &core.Case{Desc: fmt.Sprintf("%q", src), Check: func(r *core.Run) error {
			out, _, err := lib.Convert(src, lib.Opts{})
			if err != nil {
				return err
			}
			r.Outcome(out)
			if strings.Contains(out, "wkept") != kept {
				return fmt.Errorf("the line after the block is kept: %v, expected: %v\n%s", !kept, kept, out)
			}
			return nil
		}}
	}}
}

func init() {
	core.Register(&core.Property{
		ID:    "C10",
		Title: "Conditional directives keep exactly the enabled lines",
		Bounds: "all sequences of preprocessor operations (text, ifdef/ifndef/ifeval, single-line forms, endif, attribute set/unset) up to the depth of each family, " +
			"with and without attributes set by the caller, as separate paragraphs, within one paragraph and within a listing block; all nestings up to depth 4 (5) of the six kinds of conditions; all comparison operators on all pairs of operands; all pairs of directives within an excluded region followed by each kind of content; entries for attributes in verbatim blocks of 8 kinds, at the root or in another block, between all pairs of lines which look like delimiters, with 5 conditions after the block; all conditions on the backend with all backends",
		Assumptions: []string{"the words of the output identify the lines that were kept", "attribute references in ifeval are restricted to attributes that are set"},
		Families: func(tier string) []core.Family {
			d := 4
			nest := 3
			if tier == "thorough" {
				d, nest = 5, 4
			}
			none := []map[string]string{{}}
			all := []map[string]string{{}, {"aa": "v1"}, {"aa": "v2", "bb": "v1"}}
			text := []int{0, 1, 2, 3, 4, 5, 8, 9}
			return []core.Family{
				condSeq("paragraphs", d, "\n\n", all, [2]string{"", "\n"}, nil, ""),
				condSeq("one-paragraph", d, "\n", []map[string]string{{}, {"aa": "v1"}}, [2]string{"x\n", "\n"}, text, ""),
				condSeq("one-listing", d, "\n", []map[string]string{{}, {"aa": "v1"}}, [2]string{"----\n", "\n----\n"}, text, ""),
				condSeq("xhtml5", d-1, "\n\n", none, [2]string{"", "\n"}, nil, "xhtml5"),
				condNest(nest),
				condEval(),
				condSkip(),
				condBlocks(),
				condBackends(),
			}
		},
	})
}
