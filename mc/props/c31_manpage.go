package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// manpage: the parts of a document which may be a manpage
type manpage struct {
	before, title, header string // what is before the title, the title with its markup, and the lines after it
	titleHTML             string
	between               string // between the header and the Name section
	nameLines             string // attributes of the Name section
	nameID, nameRoles     string
	nameLevel             int
	name, nameHTML        string
	intro                 string // in the Name section, before its paragraph
	text, textHTML        string
	paragraphs            string // further content of the Name section
	second                string // the second section
	rest                  string
	attrs                 map[string]interface{}
	manpage               bool // whether it's a valid manpage
	numbered              bool
}

func (m manpage) source() string {
	s := m.before
	if m.title != "" {
		s += "= " + m.title + "\n" + m.header + "\n"
	} else {
		s += m.header + "\n"
	}
	return s + m.between + m.nameLines + strings.Repeat("=", m.nameLevel+1) + " " + m.name + "\n\n" + m.intro + m.text + "\n\n" + m.paragraphs + m.second + m.rest
}

// manpageCase: the document is a manpage, whose name section is in its header (or before its content), or the same as the article.
func manpageCase(m manpage, wrap, noheader bool, backend string) *core.Case {
	src := m.source()
	attrs := map[string]interface{}{}
	for k, v := range m.attrs {
		attrs[k] = v
	}
	if noheader {
		attrs["noheader"] = ""
	}
	return &core.Case{
		Desc: fmt.Sprintf("%q attributes %v wrap %v %s", src, attrs, wrap, backend),
		Check: func(r *core.Run) error {
			out, meta, err := lib.Convert(src, lib.Opts{Attrs: attrs, Wrap: wrap, Backend: backend})
			if err != nil {
				return err
			}
			r.Outcome(out)
			textHTML := m.textHTML
			if backend == "xhtml5" {
				textHTML = strings.ReplaceAll(textHTML, "<br>", "<br/>")
			}
			other := map[string]interface{}{"doctype": "article"}
			for k, v := range attrs {
				if k != "doctype" {
					other[k] = v
				}
			}
			article, articleMeta, err := lib.Convert(src, lib.Opts{Attrs: other, Wrap: wrap, Backend: backend})
			if err != nil {
				return err
			}
			if fmt.Sprint(meta.Title, meta.LastUpdated) != fmt.Sprint(articleMeta.Title, articleMeta.LastUpdated) {
				return fmt.Errorf("metadata %v, of the article %v", meta, articleMeta)
			}
			want := article
			if m.manpage {
				number := ""
				if m.numbered {
					number = "1. "
				}
				class := "sect1"
				if m.nameRoles != "" {
					class += " " + m.nameRoles
				}
				section := "<div class=\"" + class + "\">\n<h2 id=\"" + m.nameID + "\">" + number + m.nameHTML + "</h2>\n<div class=\"sectionbody\">\n<div class=\"paragraph\">\n<p>" + textHTML + "</p>\n</div>\n</div>\n</div>\n"
				if strings.Count(article, section) != 1 {
					return fmt.Errorf("the Name section %q is not in the article %s", section, article)
				}
				want = strings.Replace(article, section, "", 1)
				name := "<h2 id=\"" + m.nameID + "\">" + m.nameHTML + "</h2>\n<div class=\"sectionbody\">\n<p>" + textHTML + "</p>\n</div>\n"
				if !wrap {
					want = name + want
				} else {
					want = strings.Replace(want, "<body class=\"article\">", "<body class=\"manpage\">", 1)
					if !noheader {
						i := strings.Index(want, "<div id=\"header\">")
						j := strings.Index(want, "<div id=\"content\">")
						if i < 0 || j < 0 {
							return fmt.Errorf("no header or no content: %s", article)
						}
						want = want[:i] + "<div id=\"header\">\n<h1>" + m.titleHTML + " Manual Page</h1>\n" + name + "</div>\n" + want[j:]
					}
				}
			}
			if out != want {
				return fmt.Errorf("not the expected manpage or article: %s", firstDiff(out, want))
			}
			return nil
		},
	}
}

func newManpage() manpage {
	return manpage{title: "eve(1)", titleHTML: "eve(1)", header: ":doctype: manpage\n", name: "Name", nameHTML: "Name", nameID: "_name", nameLevel: 1, text: "eve - a", textHTML: "eve - a", second: "== Synopsis\n\neve\n\n", manpage: true}
}

func c31Families(tier string) []core.Family {
	thorough := tier == "thorough"
	return []core.Family{
		{Name: "structure", Gen: func(g *core.Gen) *core.Case {
			m := newManpage()
			budget := 2
			if thorough {
				budget = 4
			}
			// option i of n, the first one being the default
			pick := func(n int) int {
				if budget == 0 {
					return 0
				}
				i := g.Choose(n)
				if i > 0 {
					budget--
				}
				return i
			}
			valid := true
			switch pick(13) {
			case 1:
				m.header, m.attrs = "", map[string]interface{}{"doctype": "manpage"}
			case 2:
				m.header, valid = "", false
			case 3:
				m.header, valid = ":doctype: article\n", false
			case 4:
				m.attrs, valid = map[string]interface{}{"doctype": "article"}, false
			case 5:
				m.header, m.attrs = ":doctype: book\n", map[string]interface{}{"doctype": "manpage"}
			case 6:
				m.header, m.before = "", ":doctype: manpage\n\n"
			case 7:
				m.header, valid = ":doctype: manpage\n:doctype!:\n", false
			case 8:
				m.header = "A B <a@b.c>\nv1, May: a\n:doctype: manpage\n"
			case 9:
				m.header = ":x: manpage\n:doctype: {x}\n"
			case 10:
				m.header, valid = "", false
				m.between = "\n:doctype: manpage\n\n"
			case 11:
				m.title, valid = "", false
			case 12:
				m.header, valid = "", false
				m.rest = "== a\n\n:doctype: manpage\n\nb\n\n"
			}
			untitled := m.title == ""
			switch pick(5) {
			case 1:
				m.title, m.titleHTML = "*eve*(1)", "<strong>eve</strong>(1)"
				if strings.Contains(m.header, "x: ") {
					return g.Skip()
				}
			case 2:
				m.title, m.titleHTML = "eve & <adam>", "eve &amp; &lt;adam&gt;"
			case 3:
				m.before += "// c\n\n"
			case 4:
				m.title, m.titleHTML = "{y}", "value"
				if m.attrs == nil {
					m.attrs = map[string]interface{}{}
				}
				m.attrs["y"] = "value"
			}
			if untitled && m.title != "" {
				return g.Skip()
			}
			switch pick(6) {
			case 1:
				m.between += "a\n\n"
				valid = false
			case 2:
				m.between += "// c\n\n"
			case 3:
				m.between += "////\nc\n////\n\n"
			case 4:
				m.between += ":z: z\n\n"
			case 5:
				m.between += "== a\n\nb\n\n"
				valid = false
			}
			switch pick(13) {
			case 9:
				m.name, valid = "Name(C)", false
			case 10:
				m.name, valid = "Name *a*", false
			case 11:
				m.name, valid = "*Name*", false
			case 12:
				m.name, valid = "A Name", false
			case 1:
				m.name, m.nameHTML = "NAME", "NAME"
			case 2:
				m.name, m.nameHTML = "nAmE", "nAmE"
			case 3:
				m.name, m.nameHTML, valid = "Names", "Names", false
			case 4:
				m.nameLines, m.nameID = "[#i]\n", "i"
			case 5:
				m.nameLines, m.nameRoles = "[.r.s]\n", "r s"
			case 6:
				m.nameLines, m.nameID = "[[Id]]\n", "id"
			case 7:
				m.nameLevel, valid = 2, false
			case 8:
				m.header += ":idprefix: x-\n"
				m.nameID = "x-name"
				if m.title == "" {
					return g.Skip()
				}
			}
			switch pick(16) {
			case 11:
				m.text, m.textHTML = "eve - a +\nb +\nc", "eve - a<br>\nb<br>\nc"
			case 12:
				m.text, m.textHTML = "eve - http://a.b[c] ((d))(((e))) [[f]]f", `eve - <a href="http://a.b">c</a> d <a id="f"></a>f`
			case 13:
				m.text, m.textHTML = "`eve` -- a (C) \"`b`\"...", "<code>eve</code>&#8201;&#8212;&#8201;a &#169; &#8220;b&#8221;&#8230;&#8203;"
			case 14:
				m.text, m.textHTML = "// c\neve - a\n// c\nb", "eve - a\nb"
			case 15:
				m.text, m.textHTML = "eve - {plus}+_a_+ \\*b*", "eve - &#43;_a_ *b*"
			case 1:
				m.text, m.textHTML = "eve - *a* & <b>", "eve - <strong>a</strong> &amp; &lt;b&gt;"
			case 2:
				m.text, m.textHTML = "eve - a\nb", "eve - a\nb"
			case 3:
				m.text, m.textHTML = "a", "a"
			case 4:
				m.paragraphs, valid = "b\n\n", false
			case 5:
				m.paragraphs, valid = "=== b\n\nc\n\n", false
			case 6:
				m.text, valid = "* a", false
			case 7:
				m.text, valid = "----\na\n----", false
			case 8:
				m.intro = "// c\n"
			case 9:
				m.paragraphs = "// c\n\n"
			case 10:
				m.intro, m.paragraphs = ":u: u\n\n", ":v: v\n\n"
			}
			switch pick(12) {
			case 9:
				m.second, valid = "== Synopsis (C)\n\neve\n\n", false
			case 10:
				m.second, valid = "== Synopsis...\n\neve\n\n", false
			case 11:
				m.second = "== sYnOPSIS\n\n.t\n----\neve\n----\n\n"
			case 1:
				m.second = "== SYNOPSIS\n\n----\neve\n----\n\n"
			case 2:
				m.second, valid = "== Synopsys\n\neve\n\n", false
			case 3:
				m.second, valid = "", false
			case 4:
				m.second, valid = "=== Synopsis\n\neve\n\n", false
			case 5:
				m.second, valid = "== a\n\nb\n\n== Synopsis\n\neve\n\n", false
			case 6:
				m.second = "// c\n== synopsis\n\n"
			case 7:
				m.second = "[#s.r]\n== Synopsis\n\n=== a\n\nb\n\n"
			case 8:
				m.second = "== Synopsis\n\neve {u}{v}{z}\n\n"
			}
			if m.title == "" && strings.Contains(m.header, "@") {
				return g.Skip()
			}
			m.manpage = valid
			wrap := g.Bool()
			noheader := wrap && g.Bool()
			return manpageCase(m, wrap, noheader, g.Pick("html5", "xhtml5"))
		}},
		{Name: "content", Gen: func(g *core.Gen) *core.Case {
			// the other sections, table of contents, footnotes, numbers and references are the ones of the article
			m := newManpage()
			if g.Bool() {
				m.header += ":toc:\n"
			}
			if g.Bool() {
				m.header += ":sectnums:\n"
				m.numbered = true
			}
			if g.Bool() {
				m.nameLines, m.nameID = "[#n]\n", "n"
			}
			n := 1
			if g.Bool() {
				m.text, m.textHTML = "eve - a footnote:[b]", `eve - a <sup class="footnote">[<a id="_footnoteref_1" class="footnote" href="#_footnotedef_1" title="View footnote.">1</a>]</sup>`
				n++
			}
			for i := 0; i < 2; i++ {
				m.rest += g.Pick("", "== a\n\nb\n\n", "a footnote:[c]\n\n", "=== b\n\n<<"+m.nameID+">> <<_synopsis>>\n\n", ".t\n|===\n|a\n|===\n\n", "== Name\n\na\n\n", "== Synopsis\n\nb\n\n", ":x: y\n\n{x} {counter:c}\n\n", "[appendix]\n== c\n\n", "image::a.png[]\n\n")
			}
			wrap := g.Bool()
			return manpageCase(m, wrap, false, g.Pick("html5", "xhtml5"))
		}},
	}
}

func init() {
	core.Register(&core.Property{ID: "C31", Title: "A valid manpage has its name in its header, and any other one is the article", Families: c31Families,
		Bounds:      "all combinations of 2 (thorough: 4) changes among 12 of the type, 4 of the title, 5 of what is before the Name section, 12 of its title, 15 of its content and 11 of what follows, with and without header and footer; 2^4 settings with all pairs of 10 further contents",
		Assumptions: []string{"the id, title and roles of the paragraph of the Name section are not looked at", "the details (authors, revision) are not shown in manpages, and nothing of the header with noheader, as in Asciidoctor"},
	})
}
