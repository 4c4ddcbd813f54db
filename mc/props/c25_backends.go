package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// headers of document put in front of the blocks
var docHeaders = []string{
	"",
	"= «\n\n",
	"= « *«*\n« « <a@b.cd>; « «\nv1.2, 2020-01-02: «\n:toc:\n:description: «\n:keywords: «, «\n:sectnums:\n\n",
}

// macros and blocks with each of their attributes
var attributed = []struct {
	src   string
	attrs []string
}{
	{"a icon:tags[§] b", []string{"alt=A", "width=1", "height=2", "title=T", "size=2x", "rotate=90", "flip=vertical", "link=l", "role=r", "id=i", "window=_blank", "2x"}},
	{"a icon:warning[§]\n\nNOTE: b", []string{"alt=A", "width=1", "height=2", "title=T", "size=2x", "rotate=90", "flip=horizontal", "link=l", "role=r", "id=i"}},
	{"a image:i.png[§] b", []string{"A", "A,10,20", "title=T", "role=r", "id=i", "link=l", "float=left", "align=center", "width=3", "height=4", "caption=C", "window=_blank"}},
	{"image::i.png[§]", []string{"A", "A,10,20", "title=T", "role=r", "id=i", "link=l", "float=left", "align=center", "width=3", "height=4", "caption=C", "window=_blank"}},
	{".T\n[§]\nimage::i.png[A]", []string{"caption=C", "role=r", "id=i", "link=l", "float=left", "#j", ".s"}},
	{"a https://a.b[§] c", []string{"t", "role=r", "id=i", "window=_blank", "title=T", "t^"}},
	{"a link:x[§] mailto:a@b.c[§]", []string{"t", "role=r", "id=i", "window=_blank", "title=T", "t^"}},
	{".T\n[§]\n|===\n|a |b\n\n|c |d\n|e |*f*\n|===", []string{"width=50", "%autowidth", "%header", "%footer", "frame=ends", "grid=rows", "stripes=odd", "float=left", "role=r", "id=i", `cols="1,2"`, `cols="<.>1,^.^~"`, `cols="1h,1"`, "caption=C"}},
	{".T\n[§]\n. a\n.. b\n. c", []string{"start=3", "upperroman", "arabic", "loweralpha", "role=r", "id=i"}},
	{".T\n[§]\n* a\n** b\n* [x] c\n* [ ] d", []string{"%interactive", "square", "circle", "role=r", "id=i"}},
	{".T\n[§]\na:: b\nc::\nd::\ne::: f", []string{"horizontal", "qanda", "labelwidth=15", "itemwidth=85", "role=r", "id=i", "ordered"}},
	{".T\n[§]\n____\na\n____", []string{"quote,A", "quote,A,B", "verse,A,B", "role=r", "id=i", "verse"}},
	{".T\n[§]\na +\nb", []string{"quote,A", "quote,A,B", "verse,A,B", "role=r", "id=i", "NOTE", "example", "listing", "source,go", "literal", "pass", "%hardbreaks", "quote"}},
	{".T\n[§]\n====\na\n\n'''\n====", []string{"NOTE", "TIP", "CAUTION", "WARNING", "IMPORTANT", "role=r", "id=i", "caption=C"}},
	{".T\n[§]\n----\na <1>\n\nb < c\n----\n<1> d", []string{"source", "source,go", "source,go,linenums", "role=r", "id=i", "start=4"}},
	{"[§]\n> a\n> b\n> -- c", []string{"role=r", "id=i"}},
	{".T\n[§]\n****\na\n****\n\n[§]\n--\nb\n--\n\n[§]\n== S\n\n[§]\nc", []string{"role=r", "id=i", ".s.t", "#j"}},
	{"[§]#a# [§]*b*", []string{".r", "#i", ".r.s", "big"}},
}

// sameInBackends: the two back-ends give the same tree of elements, attributes and texts.
func sameInBackends(src string, o lib.Opts) *core.Case {
	return &core.Case{Desc: fmt.Sprintf("wrap=%v attributes=%v source=%q", o.Wrap, o.Attrs, src), Check: func(r *core.Run) error {
		h, x := o, o
		h.Backend, x.Backend = "html5", "xhtml5"
		d1, err := lib.DOM(src, h)
		if err != nil {
			return fmt.Errorf("html5: %w", err)
		}
		d2, err := lib.DOM(src, x)
		if err != nil {
			return fmt.Errorf("xhtml5: %w", err)
		}
		for _, d := range []*lib.Node{d1, d2} {
			d.Walk(func(n *lib.Node) bool {
				if n.Tag == "html" {
					delete(n.Attrs, "xmlns")
					delete(n.Attrs, "xml:lang")
					delete(n.Attrs, "lang")
				}
				return true
			})
		}
		c1, c2 := d1.Canon(), d2.Canon()
		r.Outcome(c1)
		if c1 != c2 {
			i := 0
			for i < len(c1) && i < len(c2) && c1[i] == c2[i] {
				i++
			}
			j := strings.LastIndexByte(c1[:i], '<')
			if j < 0 {
				j = 0
			}
			return fmt.Errorf("the back-ends differ: [html5: ...%.200s, xhtml5: ...%.200s", c1[j:], c2[j:])
		}
		return nil
	}}
}

func init() {
	core.Register(&core.Property{
		ID:          "C25",
		Title:       "HTML5 and XHTML5 outputs have the same content",
		Bounds:      "all pairs of blocks at the root and all blocks in all containers, after no header, a title, or a complete header, with or without the document around; all combinations of up to three attributes (thorough: four) of each macro and block; with icons as text, fonts or images",
		Assumptions: []string{"the attributes lang, xml:lang and xmlns of the root element are not compared"},
		Families: func(tier string) []core.Family {
			attrs := []map[string]interface{}{nil, {"icons": "font"}, {"icons": ""}, {"source-highlighter": "chroma"}}
			n := 2
			if tier == "thorough" {
				n = 3
			}
			return []core.Family{
				{Name: "attributes", Gen: func(g *core.Gen) *core.Case {
					m := core.PickOf(g, attributed)
					var list []string
					next := 0
					for i := 0; i <= n && next < len(m.attrs); i++ {
						k := g.Choose(len(m.attrs) - next + 1)
						if k == 0 {
							break
						}
						next += k
						list = append(list, m.attrs[next-1])
					}
					o := lib.Opts{Attrs: core.PickOf(g, attrs)}
					return sameInBackends(strings.ReplaceAll(m.src, "§", strings.Join(list, ","))+"\n", o)
				}},
				{Name: "blocks-in-containers", Gen: func(g *core.Gen) *core.Case {
					h := core.PickOf(g, docHeaders)
					c := core.PickOf(g, containers)
					b, ok := pickBlock(g, c)
					if !ok {
						return g.Skip()
					}
					o := lib.Opts{Wrap: g.Bool(), Attrs: core.PickOf(g, attrs)}
					s, _, _ := fill(h+c.before+b.src+c.after+"\n", "A")
					return sameInBackends(s, o)
				}},
				{Name: "pairs", Gen: func(g *core.Gen) *core.Case {
					h := docHeaders[:1]
					if tier == "thorough" {
						h = docHeaders
					}
					hd := core.PickOf(g, h)
					a, b := core.PickOf(g, corpusBlocks), core.PickOf(g, corpusBlocks)
					s, _, _ := fill(hd+a.src+"\n\n"+b.src+"\n", "A")
					return sameInBackends(s, lib.Opts{Wrap: g.Bool()})
				}},
			}
		},
	})
}
