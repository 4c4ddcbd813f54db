package props

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// escSlots: all the places of a document where text goes to the output ('¶' is the text)
var escSlots = []struct{ name, src string }{
	{"paragraph", "a ¶ b"},
	{"paragraph-whole", "¶"},
	{"paragraph-2-lines", "a\nb ¶ c\nd"},
	{"bold", "*a ¶ b*"},
	{"italic", "_a ¶ b_"},
	{"mono", "`a ¶ b`"},
	{"marked", "#a ¶ b#"},
	{"marked-role", "[.r]#a ¶ b#"},
	{"unconstrained", "x**a ¶ b**y"},
	{"nested", "*_a ¶ b_*"},
	{"superscript", "a^¶^"},
	{"subscript", "a~¶~"},
	{"passthrough-plus", "+a ¶ b+"},
	{"passthrough-2-plus", "++a ¶ b++"},
	{"passthrough-c", "pass:c[a ¶ b]"},
	{"mono-plus", "`+a ¶ b+`"},
	{"smart-quotes", "\"`a ¶ b`\""},
	{"block-title", ".a ¶ b\npara"},
	{"block-title-listing", ".a ¶ b\n----\npara\n----"},
	{"block-title-table", ".a ¶ b\n|===\n|c\n|==="},
	{"block-title-image", ".a ¶ b\nimage::i.png[]"},
	{"block-title-list", ".a ¶ b\n* c"},
	{"block-title-admonition", ".a ¶ b\nNOTE: c"},
	{"block-title-quote", ".a ¶ b\n[quote]\nc"},
	{"doctitle", "= a ¶ b\n\npara"},
	{"doctitle-toc", "= a ¶ b\n:toc:\n\n== c\n\npara"},
	{"section", "== a ¶ b\n\npara"},
	{"section-toc", "= T\n:toc:\n\n== a ¶ b\n\npara"},
	{"section-3", "==== a ¶ b\n\npara"},
	{"section-numbered", "= T\n:sectnums:\n\n== a ¶ b\n\npara"},
	{"section-bold", "== *a ¶ b*\n\npara"},
	{"ulist", "* a ¶ b"},
	{"ulist-check", "* [x] a ¶ b"},
	{"olist", ". a ¶ b"},
	{"dlist-term", "a ¶ b:: c"},
	{"dlist-desc", "c:: a ¶ b"},
	{"dlist-qanda", "[qanda]\na ¶ b:: a ¶ b"},
	{"dlist-horizontal", "[horizontal]\na ¶ b:: a ¶ b"},
	{"continuation", "* c\n+\na ¶ b"},
	{"admonition", "NOTE: a ¶ b"},
	{"admonition-block", "[TIP]\n====\na ¶ b\n===="},
	{"example", "====\na ¶ b\n===="},
	{"sidebar", "****\na ¶ b\n****"},
	{"quote-block", "____\na ¶ b\n____"},
	{"quote-attribution", "[quote,a ¶ b]\n____\nc\n____"},
	{"quote-cite", "[quote,d,a ¶ b]\n____\nc\n____"},
	{"quote-paragraph-attribution", "[quote,a ¶ b,a ¶ c]\nc"},
	{"quote-paragraph", "[quote]\na ¶ b"},
	{"markdown-quote", "> a ¶ b\n> -- c ¶ d"},
	{"verse-block", "[verse]\n____\na ¶ b\n____"},
	{"verse-attribution", "[verse,a ¶ b,a ¶ c]\n____\nc\n____"},
	{"verse-paragraph", "[verse,a ¶ b]\na ¶ b"},
	{"listing", "----\na ¶ b\n----"},
	{"listing-paragraph", "[listing]\na ¶ b"},
	{"literal", "....\na ¶ b\n...."},
	{"literal-paragraph", " a ¶ b"},
	{"source", "[source]\n----\na ¶ b\n----"},
	{"source-lang", "[source,go]\n----\na ¶ b\n----"},
	{"source-paragraph", "[source,go]\na ¶ b"},
	{"fenced", "```\na ¶ b\n```"},
	{"fenced-lang", "```go\na ¶ b\n```"},
	{"source-highlighted-unknown", ":source-highlighter: chroma\n\n[source,zork]\n----\na ¶ b\n----"},
	{"source-callout", "[source]\n----\na ¶ b <1>\n----\n<1> a ¶ b"},
	{"open", "--\na ¶ b\n--"},
	{"open-source", "[source]\n--\na ¶ b\n--"},
	{"table-cell", "|===\n|a ¶ b |c\n|==="},
	{"table-header", "[options=\"header\"]\n|===\n|a ¶ b |c\n\n|d |e\n|==="},
	{"table-footer", "[options=\"footer\"]\n|===\n|a |c\n\n|d ¶ |e\n|==="},
	{"table-a-cell", "|===\na|a ¶ b\n|==="},
	{"footnote", "a footnote:[b ¶ c]"},
	{"footnote-ref", "a footnote:x[b ¶ c] footnote:x[]"},
	{"footnote-nested-bold", "a footnote:[*b ¶ c*]"},
	{"link-text", "https://a.bc[d ¶ e]"},
	{"link-macro-text", "link:a.html[d ¶ e]"},
	{"link-quoted-text", "https://a.bc[\"d ¶ e\"]"},
	{"mailto-text", "mailto:a@b.cd[d ¶ e]"},
	{"link-window", "https://a.bc[d,window=\"e ¶ f\"]"},
	{"image-alt", "image:a.png[b ¶ c]"},
	{"image-block-alt", "image::a.png[b ¶ c]"},
	{"image-quoted-alt", "image::a.png[\"b ¶ c\"]"},
	{"image-alt-named", "image::a.png[alt=\"b ¶ c\"]"},
	{"image-title", "image:a.png[title=\"b ¶ c\"]"},
	{"image-width", "image::a.png[alt,width=\"b¶c\"]"},
	{"image-link", "image::a.png[alt,link=\"http://b¶c\"]"},
	{"image-inline-link", "image:a.png[alt,link=\"http://b¶c\"]"},
	{"icon-title", "icon:tip[title=\"a ¶ b\"]"},
	{"icon-font-title", ":icons: font\n\nicon:tip[title=\"a ¶ b\"]"},
	{"id-quoted", "[id=\"a ¶ b\"]\npara"},
	{"id-section", "[id=\"a¶b\"]\n== para"},
	{"id-section-toc", "= T\n:toc:\n\n[id=\"a¶b\"]\n== para"},
	{"xref-label", "<<a,b ¶ c>>"},
	{"xref-macro-label", "xref:a[b ¶ c]"},
	{"xref-other-document", "xref:a.adoc[b ¶ c]"},
	{"xref-title", "== a ¶ b\n\n<<_x>>\n\n[#i]\n== c ¶ d\n\n<<i>>"},
	{"xref-block-title", "[#i]\n.c ¶ d\npara\n\n<<i>>"},
	{"index-term", "((a ¶ b))"},
	{"author", "= T\nA B ¶ <a@b.cd>\n\npara"},
	{"author-attribute", "= T\n:author: A ¶ B\n\npara"},
	{"email-attribute", "= T\n:author: A B\n:email: a@b.cd\n\npara"},
	{"revision-remark", "= T\nA B\nv1, 2020: a ¶ b\n\npara"},
	{"revision-date", "= T\nA B\nv1, 20 ¶ 20: a\n\npara"},
	{"description", "= T\n:description: a ¶ b\n\npara"},
	{"toc-title", "= T\n:toc:\n:toc-title: a ¶ b\n\n== c"},
	{"version-label", "= T\n:version-label: a¶b\nA B\nv1, 2020: x\n\npara"},
	{"table-caption", ":table-caption: a ¶ b\n\n.t\n|===\n|c\n|==="},
	{"figure-caption", ":figure-caption: a ¶ b\n\n.t\nimage::a.png[]"},
	{"example-caption", ":example-caption: a ¶ b\n\n.t\n====\nc\n===="},
	{"caption", "[caption=\"a ¶ b\"]\n.t\n====\nc\n===="},
	{"caption-table", "[caption=\"a ¶ b\"]\n.t\n|===\n|c\n|==="},
	{"caption-image", "[caption=\"a ¶ b\"]\n.t\nimage::a.png[]"},
	{"note-caption", ":note-caption: a ¶ b\n\nNOTE: c"},
	{"note-caption-icons", ":note-caption: a ¶ b\n:icons: font\n\nNOTE: c"},
	{"note-caption-images", ":note-caption: a ¶ b\n:icons:\n\nNOTE: c"},
	{"iconsdir", ":iconsdir: a¶b\n:icons:\n\nNOTE: c"},
	{"imagesdir", ":imagesdir: a¶b\n\nimage::c.png[]"},
	{"source-language", "[source,\"g¶o\"]\n----\na\n----"},
	{"fenced-language", "```g¶o\na\n```"},
	{"olist-start", "[start=\"1¶\"]\n. a"},
	{"table-frame", "[frame=\"a¶b\"]\n|===\n|c\n|==="},
	{"table-width", "[width=\"a¶b\"]\n|===\n|c\n|==="},
	{"table-float", "[float=\"a¶b\",stripes=\"c¶d\",grid=\"e¶f\"]\n|===\n|c\n|==="},
	{"dlist-itemwidth", "[horizontal,labelwidth=\"a¶\",itemwidth=\"b¶\"]\na:: c"},
	{"btn", "a ¶ (C) b"},
	{"button", ":experimental:\n\nbtn:[a ¶ b]"},
	{"menu", ":experimental:\n\nmenu:a[c ¶ d > e ¶ f]"},
	{"icon-link", "icon:tip[link=\"a ¶ b\",window=\"c ¶ d\",role=\"e ¶ f\"]"},
	{"icon-font-attributes", ":icons: font\n\nicon:tip[link=\"a ¶ b\",window=\"c ¶ d\",size=\"e¶f\",flip=\"g¶h\",rotate=\"i¶j\"]"},
	{"icon-image-attributes", ":icons:\n\nicon:tip[alt=\"a ¶ b\",width=\"c¶d\",height=\"e¶f\"]"},
	{"chroma-prefix", ":source-highlighter: chroma\n:chroma-class-prefix: a¶b\n\n[source,go]\n----\nreturn\n----"},
	{"admonition-title-icons", ":icons: font\n\n.a ¶ b\nNOTE: c"},
	{"image-inline-alt-cell", "|===\n|image:a.png[b ¶ c,title=\"d ¶ e\"]\n|==="},
	{"passthrough-html-none", "a pass:q,c[*b ¶ c*] d"},
}

// escConfigSlots: all the attributes which go to the output, when they are given by the configuration
var escConfigSlots = []struct{ attr, value, src string }{
	{"toc-title", "a ¶ b", "= T\n:toc:\n\n== c"},
	{"toc-title", "a ¶ b", "= T\n:toc: preamble\n\nx\n\n== c"},
	{"description", "a ¶ b", "= T\n\npara"},
	{"doctype", "a¶b", "= T\n\npara"},
	{"version-label", "a ¶ b", "= T\nA B\nv1, 2020: x\n\npara"},
	{"author", "A ¶ B", "= T\n\npara"},
	{"author", "A ¶ B", "= T\nC D\n\npara"},
	{"email", "a¶b@c.de", "= T\nC D\n\npara"},
	{"revnumber", "1¶2", "= T\nC D\n\npara"},
	{"revdate", "a ¶ b", "= T\nC D\nv1, 2020: x\n\npara"},
	{"revremark", "a ¶ b", "= T\nC D\nv1, 2020: x\n\npara"},
	{"table-caption", "a ¶ b", ".t\n|===\n|c\n|==="},
	{"figure-caption", "a ¶ b", ".t\nimage::a.png[]"},
	{"example-caption", "a ¶ b", ".t\n====\nc\n===="},
	{"note-caption", "a ¶ b", "NOTE: c"},
	{"tip-caption", "a ¶ b", "[TIP]\n====\nc\n===="},
	{"warning-caption", "a ¶ b", ":icons: font\n\n[WARNING]\n====\nc\n===="},
	{"caution-caption", "a ¶ b", ":icons:\n\n[CAUTION]\n====\nc\n===="},
	{"important-caption", "a ¶ b", "icon:important[]"},
	{"iconsdir", "a¶b", ":icons:\n\nNOTE: c"},
	{"icontype", "a¶b", ":icons:\n\nicon:tip[]"},
	{"imagesdir", "a¶b", "a image:b.png[] c\n\nimage::d.png[]\n\n:icons:\n\nicon:tip[]"},
	{"chroma-class-prefix", "a¶b", ":source-highlighter: chroma\n\n[source,go]\n----\nreturn\n----"},
	{"idprefix", "a¶b", "== c\n\n=== d\n\n<<c>>"},
	{"idseparator", "a¶b", "= T\n:toc:\n\n== c d\n\n=== d e"},
}

// escPayloads: all that could be taken for something else by a browser
var escPayloads = []string{
	"<", ">", "&", "'", "<b>", "</p>", "</div>", "<x", "a<b>c", "<script>", "&&", "&lt", "& amp;", "<!--", "x > y & z < t", "<b>&<i>",
}

// the payloads with a quote: not in the attributes which are themselves quoted
var escQuotes = []string{"\"", "x\"y", "\" onclick", "\"<b>\""}

// escPinned: cases which do not satisfy the property, but whose output is required by the tests of the library
var escPinned = [][2]string{
	{"[.¶]#para#\n", "a<b"},
	{":v: a ¶ b\n\nc {v} d\n", "<"},
}

// escFits excludes the payloads which are part of the syntax in the slot
func escFits(slot, payload string) bool {
	if strings.Contains(payload, "->") { // typographic arrow
		return false
	}
	switch slot {
	case "author", "xref-label":
		return !strings.ContainsAny(payload, "<>;")
	case "menu": // the separator of the path
		return !strings.Contains(payload, ">")
	case "fenced-language", "superscript", "subscript":
		return !strings.Contains(payload, " ")
	}
	return true
}

// neutral replaces the payload in texts and attributes, and drops the generated ids
func neutral(n *lib.Node, payload string) string {
	gen := map[string]string{}
	id := func(s string) string {
		if strings.HasPrefix(s, "_") {
			if _, ok := gen[s]; !ok {
				gen[s] = fmt.Sprintf("_%d", len(gen))
			}
			return gen[s]
		}
		return s
	}
	n.Walk(func(m *lib.Node) bool {
		m.Text = strings.ReplaceAll(m.Text, payload, "¶")
		keys := make([]string, 0, len(m.Attrs))
		for k := range m.Attrs {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			v := strings.ReplaceAll(m.Attrs[k], payload, "¶")
			switch {
			case k == "id":
				v = id(v)
			case k == "href" && strings.HasPrefix(v, "#"):
				v = "#" + id(v[1:])
			}
			m.Attrs[k] = v
		}
		return true
	})
	return n.Canon()
}

func escCase(name, tpl, payload string, o lib.Opts) *core.Case {
	src := strings.ReplaceAll(tpl, "¶", payload)
	fill := func(payload string) lib.Opts {
		res := o
		res.Attrs = map[string]interface{}{}
		for k, v := range o.Attrs {
			res.Attrs[k] = strings.ReplaceAll(fmt.Sprint(v), "¶", payload)
		}
		return res
	}
	return &core.Case{Desc: fmt.Sprintf("slot=%s backend=%s wrap=%v source=%q", name, o.Backend, o.Wrap, src), Check: func(r *core.Run) error {
		ref, err := lib.DOM(strings.ReplaceAll(tpl, "¶", "zwz"), fill("zwz"))
		if err != nil {
			return err
		}
		d, err := lib.DOM(src, fill(payload))
		if err != nil {
			return err
		}
		// typographic replacement
		exp, got := neutral(ref, "zwz"), neutral(d, payload)
		r.Outcome(got)
		if exp != got {
			i := 0
			for i < len(exp) && i < len(got) && exp[i] == got[i] {
				i++
			}
			if i > 40 {
				i -= 40
			} else {
				i = 0
			}
			return fmt.Errorf("the special characters change the output: expected\n...%.300s\ngot\n...%.300s", exp[i:], got[i:])
		}
		return nil
	}}
}

func init() {
	core.Register(&core.Property{
		ID:          "C02",
		Title:       "Special characters are text, and the output is well-formed",
		Bounds:      "all payloads of special characters in all syntactic places where text goes to the output, in both back-ends, with and without the document around, and in all these places nested in containers; without `unicode`: 6 texts which are not in ASCII in all these places, and all blocks in all containers",
		Assumptions: []string{"the reference is the tree obtained with a plain word in the same place"},
		Families: func(tier string) []core.Family {
			opts := []lib.Opts{{Backend: "xhtml5"}, {Backend: "html5"}, {Backend: "xhtml5", Wrap: true}, {Backend: "html5", Wrap: true}}
			nestedPayloads := []string{"<b>", "&", "a<&>b"}
			if tier == "thorough" {
				nestedPayloads = append(nestedPayloads, escPayloads...)
			}
			return []core.Family{
				{Name: "payloads", Gen: func(g *core.Gen) *core.Case {
					s := core.PickOf(g, escSlots)
					p := core.PickOf(g, escPayloads)
					if tier == "thorough" {
						p += core.PickOf(g, append([]string{"", "x z"}, escPayloads...))
					}
					if !escFits(s.name, p) {
						return g.Skip()
					}
					return escCase(s.name, s.src+"\n", p, core.PickOf(g, opts))
				}},
				{Name: "configured", Gen: func(g *core.Gen) *core.Case {
					s := core.PickOf(g, escConfigSlots)
					o := core.PickOf(g, opts)
					o.Attrs = map[string]interface{}{s.attr: s.value}
					return escCase("configuration:"+s.attr+"="+s.value, s.src+"\n", core.PickOf(g, append(escPayloads, escQuotes...)), o)
				}},
				{Name: "nested", Gen: func(g *core.Gen) *core.Case {
					s := core.PickOf(g, escSlots)
					if strings.HasPrefix(s.src, ":") || strings.HasPrefix(s.src, "=") && !strings.HasPrefix(s.src, "====") || strings.Contains(s.name, "section") || strings.HasPrefix(s.name, "xref-title") {
						return g.Skip()
					}
					c := core.PickOf(g, [][2]string{{"======", "======"}, {"******", "******"}, {"______", "______"}, {"--", "--"}, {"[NOTE]\n======", "======"}, {"* i\n+\n======", "======"}, {"******\n======", "======\n******"}})
					if c[0] == "--" && (strings.HasPrefix(s.src, "--\n") || strings.HasSuffix(s.src, "\n--")) {
						return g.Skip()
					}
					p := core.PickOf(g, nestedPayloads)
					if !escFits(s.name, p) {
						return g.Skip()
					}
					return escCase(s.name, c[0]+"\n"+s.src+"\n"+c[1]+"\n", p, core.PickOf(g, opts[:2]))
				}},
				{Name: "ascii", Gen: func(g *core.Gen) *core.Case {
					// without `unicode`, the document is the same with references to characters in its texts
					src := ""
					switch g.Choose(3) {
					case 0:
						return asciiCase("a "+core.PickOf(g, asciiTexts)+" b", g.Choose(len(asciiPlaces)), core.PickOf(g, opts))
					case 1:
						s := core.PickOf(g, escSlots)
						p := core.PickOf(g, asciiTexts)
						if !escFits(s.name, p) {
							return g.Skip()
						}
						src = strings.ReplaceAll(s.src, "¶", p) + "\n"
					case 2:
						c := core.PickOf(g, containers)
						b, ok := pickBlock(g, c)
						if !ok {
							return g.Skip()
						}
						src, _, _ = fill(c.before+b.src+c.after+"\n", "é€")
					}
					return asciiCase(src, -1, core.PickOf(g, opts))
				}},
				{Name: "pinned", Gen: func(g *core.Gen) *core.Case {
					s := core.PickOf(g, escPinned)
					return escCase("pinned", s[0], s[1], lib.Opts{Backend: "xhtml5"})
				}},
				{Name: "quotes", Gen: func(g *core.Gen) *core.Case {
					s := core.PickOf(g, escSlots)
					p := core.PickOf(g, escQuotes)
					if !escFits(s.name, p) || strings.Contains(s.src, "=\"") || strings.Contains(s.src, ",\"") || strings.Contains(s.src, "[\"") {
						return g.Skip()
					}
					return escCase(s.name, s.src+"\n", p, core.PickOf(g, opts))
				}},
			}
		},
	})
}

// asciiTexts have characters which are not in ASCII
var asciiTexts = []string{"é", "x\u00a0y", "日本", "𝒳z", "e\u0301", "\u200bé"}

// asciiPlaces are the places whose texts are in ASCII when `unicode` is `false`
var asciiPlaces = []string{"¶", "* ¶\n** ¶", "|===\n|¶ |*¶*\n\n|¶|`¶`\n|===", "----\n¶\n----", "....\n¶\n....", "[verse]\n____\n¶\n____", "____\n¶\n____", "NOTE: ¶", "a footnote:[¶]", "a:: ¶", "_a ¶_ *¶* #¶# `¶` ^¶^ ~¶~", "\"`¶`\"", "====\n* a\n+\n¶\n====", " ¶", "```\n¶\n```", "((¶))", "[source,go]\n----\n¶ <1>\n----\n<1> ¶"}

var references = regexp.MustCompile(`&#[0-9]+;`)

// asciiCase compares the outputs with and without references to characters
func asciiCase(src string, place int, o lib.Opts) *core.Case {
	if place >= 0 {
		src = strings.ReplaceAll(asciiPlaces[place], "¶", src) + "\n"
	}
	return &core.Case{Desc: fmt.Sprintf("without unicode, backend=%s wrap=%t source=%q", o.Backend, o.Wrap, src), Check: func(r *core.Run) error {
		want, _, err := lib.Convert(src, o)
		if err != nil {
			return err
		}
		o.Attrs = map[string]interface{}{"unicode": "false"}
		got, _, err := lib.Convert(src, o)
		if err != nil {
			return err
		}
		r.Outcome(got)
		if place >= 0 {
			for _, c := range got {
				if c > 127 {
					return fmt.Errorf("%q in the output:\n%s", c, got)
				}
			}
		}
		unreferenced := func(s string) string {
			return references.ReplaceAllStringFunc(s, func(ref string) string {
				n := 0
				fmt.Sscanf(ref, "&#%d;", &n)
				if n < 128 {
					return ref
				}
				return string(rune(n))
			})
		}
		if want, got := unreferenced(want), unreferenced(got); want != got {
			return fmt.Errorf("- %s\n+ %s", want, got)
		}
		return nil
	}}
}
