package props

import (
	"fmt"
	"html"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

type headAuthor struct{ name, email string }

// headModel is what the header of a document gives.
type headModel struct {
	title, plain   string // formatted, and without format
	attrs          map[string]string
	description    string
	id, roles      string
	doctype        string
	css            []string
	noHeader       bool
	noFooter       bool
	hasTitle       bool
	extra          map[string]string // further attributes, shown in the content
	hideAuthorPart bool              // the parts of the name are not specified
}

// setAuthor sets the attributes of the n-th author
func (m *headModel) setAuthor(n int, name, email string) {
	suffix := ""
	if n > 1 {
		suffix = fmt.Sprintf("_%d", n)
	}
	parts := strings.Fields(name)
	if len(parts) > 3 {
		parts = []string{parts[0], parts[1], strings.Join(parts[2:], " ")}
	}
	initials := ""
	for i, p := range parts {
		parts[i] = strings.ReplaceAll(p, "_", " ")
		initials += string([]rune(p)[0])
	}
	switch len(parts) {
	case 1:
		m.attrs["firstname"+suffix] = parts[0]
	case 2:
		m.attrs["firstname"+suffix], m.attrs["lastname"+suffix] = parts[0], parts[1]
	case 3:
		m.attrs["firstname"+suffix], m.attrs["middlename"+suffix], m.attrs["lastname"+suffix] = parts[0], parts[1], parts[2]
	}
	if len(parts) > 0 {
		m.attrs["author"+suffix] = strings.Join(parts, " ")
		m.attrs["authorinitials"+suffix] = initials
	}
	if email != "" {
		m.attrs["email"+suffix] = email
	}
}

func (m *headModel) authors() []headAuthor {
	result := []headAuthor{}
	for n := 1; ; n++ {
		suffix := ""
		if n > 1 {
			suffix = fmt.Sprintf("_%d", n)
		}
		a := headAuthor{m.attrs["author"+suffix], m.attrs["email"+suffix]}
		if a == (headAuthor{}) {
			return result
		}
		result = append(result, a)
	}
}

var headNames = []string{
	"author", "firstname", "middlename", "lastname", "authorinitials", "email", "author_2", "firstname_2", "lastname_2", "authorinitials_2", "email_2", "author_3", "middlename_3", "email_3", "author_4", "email_4", "author_5", "lastname_5", "authorinitials_5", "revnumber", "revdate", "revremark",
}

func headProbe() string {
	s := ""
	for _, n := range headNames {
		s += n + "={" + n + "}\n"
	}
	return s
}

// headCase: the source has the header of the model, and is rendered with it.
func headCase(head string, m *headModel, o lib.Opts, body, bodyHTML string) *core.Case {
	src := head + "\n[subs=attributes]\n----\n" + headProbe() + "----\n\n" + body
	return &core.Case{
		Desc: fmt.Sprintf("%q attributes %v css %v %s", head, o.Attrs, o.CSS, o.Backend),
		Check: func(r *core.Run) error {
			o.Wrap = true
			out, meta, err := lib.Convert(src, o)
			if err != nil {
				return err
			}
			r.Outcome(out)
			plain := o
			plain.Wrap = false
			content, meta2, err := lib.Convert(src, plain)
			if err != nil {
				return err
			}
			if meta.Title != meta2.Title || meta.LastUpdated != meta2.LastUpdated {
				return fmt.Errorf("metadata %v, without header and footer %v", meta, meta2)
			}
			doc, err := lib.ParseHTML(out)
			if err != nil {
				return err
			}
			one := func(tag string) (*lib.Node, error) {
				l := doc.All(tag)
				if len(l) != 1 {
					return nil, fmt.Errorf("%d elements %s: %s", len(l), tag, out)
				}
				return l[0], nil
			}
			// the head
			title, err := one("title")
			if err != nil {
				return err
			}
			wantTitle := m.plain
			if !m.hasTitle {
				wantTitle = "Untitled"
			}
			if title.Content() != wantTitle {
				return fmt.Errorf("title %q, expected %q", title.Content(), wantTitle)
			}
			if got := html.UnescapeString(meta.Title); got != m.plain {
				return fmt.Errorf("title of the metadata %q, expected %q", got, m.plain)
			}
			authors := m.authors()
			names := []string{}
			for _, a := range authors {
				if a.name != "" {
					names = append(names, a.name)
				}
			}
			metas := map[string]string{}
			for _, n := range doc.All("meta") {
				if n.Attrs["name"] != "" {
					if _, found := metas[n.Attrs["name"]]; found {
						return fmt.Errorf("two elements meta %s: %s", n.Attrs["name"], out)
					}
					metas[n.Attrs["name"]] = n.Attrs["content"]
				}
			}
			for k, v := range map[string]string{"author": strings.Join(names, "; "), "description": m.description} {
				if metas[k] != v {
					return fmt.Errorf("%s is %q, expected %q: %s", k, metas[k], v, out)
				}
			}
			links := []string{}
			for _, n := range doc.All("link") {
				links = append(links, n.Attrs["href"])
			}
			if fmt.Sprint(links) != fmt.Sprint(m.css) {
				return fmt.Errorf("stylesheets %q, expected %q", links, m.css)
			}
			// the body
			b, err := one("body")
			if err != nil {
				return err
			}
			class := strings.TrimSpace(m.doctype + " " + m.roles)
			if b.Attrs["class"] != class || b.Attrs["id"] != m.id {
				return fmt.Errorf("body with class %q and id %q, expected %q and %q", b.Attrs["class"], b.Attrs["id"], class, m.id)
			}
			if !strings.Contains(out, "<div id=\"content\">\n"+content+"</div>\n") {
				return fmt.Errorf("the content is not the one without header and footer: %s", firstDiff(content, out))
			}
			if !strings.Contains(content, bodyHTML) {
				return fmt.Errorf("no %q in %s", bodyHTML, content)
			}
			parts := map[string]*lib.Node{}
			for _, n := range b.Children() {
				if n.Tag != "" {
					parts[n.Attrs["id"]] = n
				}
			}
			if (parts["header"] != nil) != (!m.noHeader && m.hasTitle) || (parts["footer"] != nil) == m.noFooter {
				return fmt.Errorf("header or footer: %s", out)
			}
			if h := parts["header"]; h != nil {
				if !strings.Contains(out, "<h1>"+m.title+"</h1>") {
					return fmt.Errorf("no title %q: %s", m.title, out)
				}
				want := []string{}
				for i, a := range authors {
					n := ""
					if i > 0 {
						n = fmt.Sprint(i + 1)
					}
					if a.name != "" {
						want = append(want, "author"+n+"="+a.name)
					}
					if a.email != "" {
						link := "mailto:" + a.email
						if strings.Contains(a.email, "://") {
							link = a.email
						}
						want = append(want, "email"+n+"="+a.email+" -> "+link)
					}
				}
				if len(authors) > 0 {
					if v := m.attrs["revnumber"]; v != "" {
						label := "version"
						if l, found := m.attrs["version-label"]; found {
							label = l
						}
						v = strings.TrimSpace(label + " " + v)
						if m.attrs["revdate"] != "" {
							v += ","
						}
						want = append(want, "revnumber="+v)
					}
					for _, k := range []string{"revdate", "revremark"} {
						if v := m.attrs[k]; v != "" {
							want = append(want, k+"="+v)
						}
					}
				}
				got := []string{}
				for _, n := range h.All("span") {
					if n.Attrs["id"] == "" {
						continue // in the title
					}
					s := n.Attrs["id"] + "=" + n.Content()
					if a := n.All("a"); len(a) > 0 {
						s += " -> " + a[0].Attrs["href"]
					}
					got = append(got, s)
				}
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					return fmt.Errorf("details %q, expected %q", got, want)
				}
			}
			if f := parts["footer"]; f != nil {
				want := "Last updated " + meta.LastUpdated
				if v := m.attrs["revnumber"]; v != "" {
					want = "Version " + v + "\n" + want
				}
				if got := strings.TrimSpace(f.Content()); got != want {
					return fmt.Errorf("footer %q, expected %q", got, want)
				}
			}
			// the attributes
			for _, n := range headNames {
				v, found := m.attrs[n]
				if !found {
					v = "{" + n + "}"
				}
				if m.hideAuthorPart && (strings.Contains(n, "name") || strings.Contains(n, "initials")) {
					continue
				}
				if !strings.Contains(content, n+"="+v+"\n") && !strings.Contains(content, n+"="+v+"</pre>") {
					return fmt.Errorf("attribute %s is not %q: %s", n, v, content)
				}
			}
			return nil
		},
	}
}

func newHead() *headModel {
	return &headModel{title: "T", plain: "T", hasTitle: true, attrs: map[string]string{}, doctype: "article"}
}

var headAuthors = []struct{ src, name, email string }{
	{"A", "A", ""}, {"A B", "A B", ""}, {"A B C", "A B C", ""}, {"A B C D", "A B C D", ""}, {"A_b B C_d", "A_b B C_d", ""}, {"É Ü", "É Ü", ""}, {"O'B C-D", "O'B C-D", ""}, {"A. & B", "A. & B", ""}, {"*A* \"B\"", "*A* \"B\"", ""}, {"1 2", "1 2", ""},
	{"A <a@b.c>", "A", "a@b.c"}, {"A B <a@b.c>", "A B", "a@b.c"}, {"A B C <a+b_c@d-e.f>", "A B C", "a+b_c@d-e.f"}, {"A B C D  <a@b>", "A B C D", "a@b"}, {"A B <http://a.b/c?d=e&f>", "A B", "http://a.b/c?d=e&f"}, {"<a@b.c>", "", "a@b.c"}, {"A  B   C", "A B C", ""}, {"A B<a@b>", "A B", "a@b"}, {"{x} B", "{x} B", ""}, {"A_b_c D_e_f G_h_i", "A_b_c D_e_f G_h_i", ""}, {"A_b_c D_e_f", "A_b_c D_e_f", ""},
}

var headRevisions = []struct{ src, number, date, remark string }{
	{"", "", "", ""}, {"v1\n", "1", "", ""}, {"v1.0\n", "1.0", "", ""}, {"V2.0-a b\n", "2.0-a b", "", ""}, {"v1.0,\n", "1.0", "", ""}, {"1.0,\n", "1.0", "", ""}, {"1,\n", "1", "", ""}, {"v1.0:\n", "1.0", "", ""}, {"v1,:\n", "1", "", ""},
	{"v1.0, 2020-01-02\n", "1.0", "2020-01-02", ""}, {"1, May 1, 2020\n", "1", "May 1, 2020", ""}, {"2020-01-02\n", "", "2020-01-02", ""}, {"May 1, 2020: a: b\n", "", "May 1, 2020", "a: b"}, {"v1: a, b\n", "1", "", "a, b"}, {"v1.0 , 2 May : *a* & <b>\n", "1.0", "2 May", "*a* & <b>"}, {"1.0,May:a\n", "1.0", "May", "a"}, {"  v1, May: a\n", "1", "May", "a"}, {"v1.0,: a\n", "1.0", "", "a"}, {"v1\u00e9, \u00fc: \u00e4\n", "1\u00e9", "\u00fc", "\u00e4"}, {"v1, May: :a\n", "1", "May", ":a"}, {"v1: :a:\n", "1", "", ":a:"}, {"v1, May: v2\n", "1", "May", "v2"},
}

func c28Families(tier string) []core.Family {
	thorough := tier == "thorough"
	backend := func(g *core.Gen) string { return g.Pick("html5", "xhtml5") }
	return []core.Family{
		{Name: "authors", Gen: func(g *core.Gen) *core.Case {
			m := newHead()
			n := 1 + g.Choose(2)
			if thorough {
				n = 1 + g.Choose(3)
			}
			line := ""
			for i := 1; i <= n; i++ {
				a := core.PickOf(g, headAuthors)
				if i > 1 {
					line += g.Pick("; ", ";", " ;  ")
				}
				line += a.src
				m.setAuthor(i, a.name, a.email)
			}
			head := "= T\n" + g.Pick("", " ") + line + "\n"
			rev := headRevisions[0]
			if n == 1 {
				rev = core.PickOf(g, headRevisions)
				for k, v := range map[string]string{"revnumber": rev.number, "revdate": rev.date, "revremark": rev.remark} {
					if v != "" {
						m.attrs[k] = v
					}
				}
			}
			return headCase(head+rev.src, m, lib.Opts{Backend: backend(g)}, "x\n", "<p>x</p>")
		}},
		{Name: "many", Gen: func(g *core.Gen) *core.Case {
			m := newHead()
			line := []string{}
			for i := 1; i <= 5 && (i <= 2 || g.Bool()); i++ {
				a := g.Pick("A", "B C", "D E F")
				e := g.Pick("", "a@b.c")
				m.setAuthor(i, fmt.Sprint(a, i), e)
				if e != "" {
					e = " <" + e + ">"
				}
				line = append(line, fmt.Sprint(a, i, e))
			}
			return headCase("= T\n"+strings.Join(line, "; ")+"\n", m, lib.Opts{}, "x\n", "<p>x</p>")
		}},
		{Name: "attributes", Gen: func(g *core.Gen) *core.Case {
			m := newHead()
			o := lib.Opts{Backend: backend(g), Attrs: map[string]interface{}{}}
			head := g.Pick("= T\n", "= T\nA B <a@b>; C <c@d>\n", "= T\nA B\nv1, May: a\n", "// a\n= T\n// b\nA B\n// c\nv1, May: a\n// d\n", "\n////\nx\n////\n\n// y\n\n= T\nA B\n////\n:author: X\n////\nv1, May: a\n")
			if strings.Contains(head, "A B") {
				m.setAuthor(1, "A B", "")
			}
			if strings.Contains(head, "C") {
				m.setAuthor(1, "A B", "a@b")
				m.setAuthor(2, "C", "c@d")
			}
			if strings.Contains(head, "v1") {
				m.attrs["revnumber"], m.attrs["revdate"], m.attrs["revremark"] = "1", "May", "a"
			}
			m.hideAuthorPart = true
			before, after := "", ""
			values := map[string]string{}
			n := 1 + g.Choose(2)
			for i := 0; i < n; i++ {
				k := g.Pick("author", "email", "revnumber", "revdate", "revremark", "description", "doctype", "author_2", "version-label")
				v := fmt.Sprintf("V%d x, (y)", i)
				if k == "doctype" {
					v = "book"
				}
				switch g.Choose(4) {
				case 0: // after the title
					after += ":" + k + ": " + v + "\n"
					values[k] = v
				case 1: // before the title
					before += ":" + k + ": " + v + "\n"
					if _, found := m.attrs[k]; !found {
						if _, found := values[k]; !found {
							values[k] = v
						}
					}
					if i == 1 && values[k] != v && strings.Contains(before, k) && !strings.Contains(after, k) {
						if _, found := m.attrs[k]; !found {
							values[k] = v
						}
					}
				case 2: // in the configuration
					o.Attrs[k] = v
				case 3: // in the body, which does not apply to the header (whether it applies to the footer is not specified)
					if k == "revnumber" {
						return g.Skip()
					}
					return headCase(before+head+after, m.with(values, o), o, ":"+k+": "+v+"\n\n{"+k+"}\n", "")
				}
			}
			return headCase(before+head+after, m.with(values, o), o, "x\n", "<p>x</p>")
		}},
		{Name: "titles", Gen: func(g *core.Gen) *core.Case {
			m := newHead()
			t := core.PickOf(g, []struct{ src, html, plain string }{
				{"T", "T", "T"}, {"*T* _u_ `v`", "<strong>T</strong> <em>u</em> <code>v</code>", "T u v"}, {"T & <u> \"v\"", "T &amp; &lt;u&gt; \"v\"", "T & <u> \"v\""}, {"T: u: v", "T: u: v", "T: u: v"}, {"T...", "T&#8230;&#8203;", "T\u2026\u200b"},
				{"{x} T", "value T", "value T"}, {"http://a.b[T] u", `<a href="http://a.b">T</a> u`, "T u"}, {"T #u#", "T <mark>u</mark>", "T u"}, {"É (C)", "É &#169;", "É ©"}, {"T [[a]]u", `T <a id="a"></a>u`, "T u"}, {"*_T_ u* v", "<strong><em>T</em> u</strong> v", "T u v"}, {"1", "1", "1"}, {"= T", "= T", "= T"}, {"T ==", "T ==", "T =="}, {`\*T*`, "*T*", "*T*"},
				{"T{nbsp}{plus}", "T&#160;&#43;", "T\u00a0+"},
			})
			m.title, m.plain = t.html, t.plain
			before := g.Pick("", "\n\n", "[#i]\n", "[.r.s]\n", "[#i.r]\n", "[[i]]\n", "[id=i,role=r s]\n", "// c\n", ":y: z\n\n", "[#i]\n// c\n", ":!y:\n[.r]\n", "////\nc\n////\n[#i]\n", "---\nx: value\n---\n")
			if strings.Contains(before, "i]") || strings.Contains(before, "#i") || strings.Contains(before, "=i") {
				m.id = "i"
			}
			switch {
			case strings.Contains(before, ".r.s"), strings.Contains(before, "r s"):
				m.roles = "r s"
			case strings.Contains(before, ".r"):
				m.roles = "r"
			}
			after := g.Pick("\n", "A\n\n", ":y: z\n\n")
			if after[0] == 'A' {
				m.setAuthor(1, "A", "")
			}
			o := lib.Opts{Backend: backend(g), Attrs: map[string]interface{}{"x": "value"}}
			if strings.Contains(before, "---") {
				o.Attrs = nil
			}
			body := core.PickOf(g, [][2]string{{"x\n", "<p>x</p>"}, {"== S\n\nx\n", "<p>x</p>"}, {"", ""}, {"x footnote:[f]\n\n== S\n", "f\n</div>"}})
			return headCase(before+"= "+t.src+"\n"+after, m, o, body[0], body[1])
		}},
		{Name: "preambles", Gen: func(g *core.Gen) *core.Case {
			// what is between the header and the first section is a preamble, if there is anything
			parts := [][2]string{{"", ""}, {":y: z\n\n", ""}, {":!y:\n\n", ""}, {"\n", ""}, {"// c\n\n", ""}, {"p\n\n", "p"}, {"* p\n\n", "p"}, {"----\np\n----\n\n", "p"}}
			if thorough {
				parts = append(parts, [2]string{"////\nc\n////\n\n", ""}, [2]string{"image::p.png[p]\n\n", "p"})
			}
			head := g.Pick("= T\n\n", "= T\nA B\n\n", "= T\n:w: v\n\n", "")
			section := g.Pick("", "== S\n\nq\n", "== S\n", "[#i]\n== S\n\nq\n")
			src, content, comments := head, false, false
			n := 3
			for i := 0; i < n; i++ {
				p := core.PickOf(g, parts)
				src += p[0]
				content = content || p[1] != ""
				comments = comments || strings.Contains(p[0], "c\n")
			}
			src += section
			wrap := g.Bool()
			if head == "" && section != "" && src[0] == '-' {
				return g.Skip()
			}
			return &core.Case{Desc: fmt.Sprintf("%q", src), Check: func(r *core.Run) error {
				out, _, err := lib.Convert(src, lib.Opts{Wrap: wrap})
				if err != nil {
					return err
				}
				r.Outcome(out)
				if comments && !content { // (comments are content for the library)
					return nil
				}
				if got, want := strings.Count(out, `<div id="preamble">`), head != "" && section != "" && content; got > 1 || (got == 1) != want {
					return fmt.Errorf("%d preambles, expected: %t\n%s", got, want, out)
				}
				return nil
			}}
		}},
		{Name: "predefined", Gen: func(g *core.Gen) *core.Case {
			// attributes for special characters in the title of the page
			text, want := "T", "T"
			for i := 0; i < 3; i++ {
				p := core.PickOf(g, [][2]string{{"{lt}", "&lt;"}, {"{gt}", "&gt;"}, {"{amp}", "&amp;"}, {" u ", " u "}, {"{nbsp}", "\u00a0"}, {"{zwsp}", "\u200b"}})
				text += p[0]
				want += p[1]
			}
			o := lib.Opts{Wrap: true, Backend: backend(g)}
			return &core.Case{Desc: fmt.Sprintf("%q", text), Check: func(r *core.Run) error {
				out, _, err := lib.Convert("= "+text+"\n\nx\n", o)
				if err != nil {
					return err
				}
				r.Outcome(out)
				if want := "<title>" + strings.TrimSuffix(want, " ") + "</title>"; !strings.Contains(strings.NewReplacer("&#160;", "\u00a0", "&#8203;", "\u200b").Replace(out), want) {
					return fmt.Errorf("- %s expected\n+ %s", want, out)
				}
				return nil
			}}
		}},
		{Name: "names", Gen: func(g *core.Gen) *core.Case {
			// references to all authors
			n := g.Choose(3) + 1
			var src, names []string
			for i := 0; i < n; i++ {
				a := core.PickOf(g, headAuthors)
				if a.name == "" || strings.ContainsAny(a.name, "{*&\"'_") {
					return g.Skip()
				}
				src = append(src, a.src)
				names = append(names, a.name)
			}
			text := "= T\n" + strings.Join(src, "; ") + "\n\nx {authors} y\n"
			want := "<p>x " + strings.Join(names, ", ") + " y</p>"
			return &core.Case{Desc: fmt.Sprintf("%q", text), Check: func(r *core.Run) error {
				out, _, err := lib.Convert(text, lib.Opts{})
				if err != nil {
					return err
				}
				r.Outcome(out)
				if !strings.Contains(out, want) {
					return fmt.Errorf("- %s expected\n+ %s", want, out)
				}
				return nil
			}}
		}},
		{Name: "settings", Gen: func(g *core.Gen) *core.Case {
			// the attributes of the header have their effect whatever comes before and after them, with a title or without
			parts := []string{"", "// c\n", ":x: y\n", ":!y:\n", "////\nc\n////\n", "\n", "= T\n"}
			n := 3
			if thorough {
				n = 5
			}
			setting := g.Pick("toc", "sectnums", "!toc", "!sectnums")
			at := g.Choose(n)
			src, title, blank := "", false, false
			for i := 0; i < n; i++ {
				if i == at {
					src += ":" + setting + ":\n"
					if title && blank {
						return g.Skip() // (in the body)
					}
				}
				p := core.PickOf(g, parts)
				if p[:min(1, len(p))] == "=" {
					if title {
						return g.Skip()
					}
					title, blank = true, false
				}
				if title && strings.HasPrefix(p, "//") && strings.Contains(p, "\nc") {
					return g.Skip()
				}
				blank = blank || p == "\n"
				src += p
			}
			src += "\n== A\n"
			return &core.Case{Desc: fmt.Sprintf("%q", src), Check: func(r *core.Run) error {
				out, _, err := lib.Convert(src, lib.Opts{Wrap: true})
				if err != nil {
					return err
				}
				r.Outcome(out)
				if got, want := strings.Contains(out, `<div id="toc" class="toc">`), setting == "toc"; got != want {
					return fmt.Errorf("table of contents: %t, expected: %t\n%s", got, want, out)
				}
				if got, want := strings.Contains(out, `<h2 id="_a">1. A</h2>`), setting == "sectnums"; got != want {
					return fmt.Errorf("section numbers: %t, expected: %t\n%s", got, want, out)
				}
				return nil
			}}
		}},
		{Name: "page", Gen: func(g *core.Gen) *core.Case {
			m := newHead()
			o := lib.Opts{Backend: backend(g), Attrs: map[string]interface{}{}}
			head := g.Pick("= T\nA\nv1\n", "", "// c\n\n")
			if head != "" && head[0] == '=' {
				m.setAuthor(1, "A", "")
				m.attrs["revnumber"] = "1"
			} else {
				m.hasTitle, m.plain = false, ""
			}
			for _, k := range []string{"noheader", "nofooter", "description", "toc", "sectnums"} {
				v := ""
				if k == "description" {
					v = "D"
				}
				where := g.Choose(3)
				switch where {
				case 1:
					head += strings.TrimSpace(":"+k+": "+v) + "\n"
				case 2:
					o.Attrs[k] = v
				}
				if where > 0 {
					switch k {
					case "noheader":
						m.noHeader = true
					case "nofooter":
						m.noFooter = true
					case "description":
						m.description = "D"
					}
				}
			}
			o.CSS = core.PickOf(g, [][]string{nil, {"a.css"}, {"b/c.css", "http://a.b/d.css?e=f", "a.css"}})
			m.css = o.CSS
			body := core.PickOf(g, [][2]string{{"x\n", "<p>x</p>"}, {"== S\n\nx\n\n=== U\n", "<p>x</p>"}, {"x\n\n== S\n", "<p>x</p>"}})
			return headCase(head, m, o, body[0], body[1])
		}},
	}
}

// with sets attributes: those declared in the document, then those of the configuration
func (m *headModel) with(values map[string]string, o lib.Opts) *headModel {
	for k, v := range values {
		m.attrs[k] = v
	}
	for k, v := range o.Attrs {
		m.attrs[k] = v.(string)
	}
	m.description = m.attrs["description"]
	if d := m.attrs["doctype"]; d != "" {
		m.doctype = d
	}
	return m
}

func init() {
	core.Register(&core.Property{ID: "C28", Title: "The header of a document is in its page, its metadata and its attributes", Families: c28Families,
		Bounds:      "all pairs (triples in the thorough tier) of 21 authors in 3 notations; up to 5 authors; 21 authors with 22 revisions; pairs of declarations of 9 attributes after or before the title, in the configuration or in the body, with 5 headers; 17 titles with 13 things before and 4 bodies; all triples of 8 (10) things before a section, with 4 headers; references to up to 3 authors; 2^10 settings of pages with stylesheets",
		Assumptions: []string{"the parts of the name of an author whose name is set by an attribute are not looked at", "the details are shown only if there is an author (as in the tests)"},
	})
}
