package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"

	log "github.com/sirupsen/logrus"
)

// total converts the source in the given way and only requires a conversion without panic nor error
// (a conversion which does not end is reported by the driver).
func total(src string, o lib.Opts) *core.Case {
	return &core.Case{
		Desc: fmt.Sprintf("backend=%s wrap=%v attributes=%v source=%q", o.Backend, o.Wrap, o.Attrs, src),
		Check: func(r *core.Run) error {
			out, _, logs, err := lib.ConvertLogged(src, o, log.ErrorLevel)
			r.Outcome(out)
			if err != nil {
				return fmt.Errorf("conversion failed: %w", err)
			}
			for _, l := range logs {
				if !strings.Contains(l, "unsupported substitution") { // existing tests require that such blocks are reported, and dropped
					return fmt.Errorf("an error was logged during the conversion: %s", l)
				}
			}
			return nil
		},
	}
}

var totalChars = strings.Split("* _ ` # ^ ~ + - = . | [ ] ( ) { } < > & : ; , \" ' \\ / ! % @ a 1", " ")

// contexts in which a string is placed
var totalContexts = [][2]string{
	{"", ""}, {"a ", " b"}, {"* ", ""}, {"|===\n|", "\n|==="}, {"== ", "\n\na"}, {".", "\nb"}, {"[", "]\nb"}, {"----\n", "\n----"},
	{":a: ", "\n\n{a}"}, {"image::a.png[", "]"}, {"link:a[", "]"}, {"a::", "[]"}, {"____\n", "\n____"}, {"[verse]\n", ""}, {"footnote:[", "]"}, {"<<", ">>"},
	{"= ", "\n\na"}, {"= T\n", "\n\na"}, {"a:: ", ""}, {"<1> ", ""}, {"ifeval::[", "]\nb"}, {"image:", "[]"}, {"https://a.b/", "[c]"},
}

func totalStrings(name string, length int, chars []string, contexts [][2]string) core.Family {
	alphabet := append([]string{" ", "\n"}, chars...)
	return core.Family{Name: name, Gen: func(g *core.Gen) *core.Case {
		c := contexts[g.Choose(len(contexts))]
		s := ""
		for i := 0; i < length; i++ {
			s += core.PickOf(g, alphabet)
		}
		return total(c[0]+s+c[1], lib.Opts{Wrap: true})
	}}
}

var totalLines = []string{
	"", "a *b* {c}", "= T", "== S", "==== S3", ".T", "[.r]", "[[i]]", "[quote]", "[verse,x]", "[source,go]", "[NOTE]", "[cols=\"1,1\"]", "[%header]", "[horizontal]",
	"----", "....", "====", "____", "****", "++++", "////", "```", "--", "|===", "|a |b", "|a", "* i", "** i", "- i", ". i", ".. i", "t:: d", "t::", "<1> c", "+", " lit",
	"// c", "'''", ":a: b", ":!a:", "ifdef::a[]", "endif::[]", "NOTE: x", "image::x.png[]", "toc::[]", "> q", "x <1>", "a::b[c]", "footnote:[n]", "[discrete]", "\"q\"", "-- me", "<<<", "[[b]]x [.r]#y#",
}

func totalSeq(name string, depth int, lines []string, o []lib.Opts) core.Family {
	return core.Family{Name: name, Gen: func(g *core.Gen) *core.Case {
		opts := core.PickOf(g, o)
		l := make([]string, depth)
		for i := range l {
			l[i] = core.PickOf(g, lines)
		}
		return total(strings.Join(l, "\n"), opts)
	}}
}

var totalInline = []string{
	"a", " ", "\n", "*", "**", "_", "__", "`", "``", "#", "##", "^", "~", "+", "++", "+++", "[.r]#", "pass:[", "]", "link:b[", "https://c.d", "image:e.png[", "icon:f[", "footnote:[", "<<", ">>", "{g}", "{counter:h}", "((", "))", "(((", ")))",
	"[[", "]]", "\\", "\"`", "`\"", "'`", "`'", "--", "...", "->", "<1>", "mailto:", "@", "xref:i[", "btn:[", "menu:j[", "\t", "|", "é", "\u00a0",
}

func totalTokens(name string, depth int, contexts [][2]string) core.Family {
	return core.Family{Name: name, Gen: func(g *core.Gen) *core.Case {
		c := contexts[g.Choose(len(contexts))]
		s := ""
		for i := 0; i < depth; i++ {
			s += core.PickOf(g, totalInline)
		}
		return total(c[0]+s+c[1], lib.Opts{Wrap: true})
	}}
}

// every prefix, every suffix, and every deletion of one byte, of one line of each block of the corpus
func totalMutations() core.Family {
	return core.Family{Name: "mutations", Gen: func(g *core.Gen) *core.Case {
		b := core.PickOf(g, corpusBlocks)
		src, _, _ := fill(b.src, "")
		o := core.PickOf(g, []lib.Opts{{}, {Backend: "xhtml5", Wrap: true}})
		switch g.Choose(6) {
		case 0:
			src = src[:g.Choose(len(src)+1)]
		case 1:
			src = src[g.Choose(len(src)):]
		case 2:
			i := g.Choose(len(src))
			src = src[:i] + src[i+1:]
		case 3:
			l := strings.Split(src, "\n")
			i := g.Choose(len(l))
			src = strings.Join(append(append([]string{}, l[:i]...), l[i+1:]...), "\n")
		case 4:
			i := g.Choose(len(src))
			src = src[:i] + g.Pick("\x00", "\xff", "\n", "é", "\ufffd", "\r", "\\") + src[i:]
		case 5:
			l := strings.Split(src, "\n")
			i := g.Choose(len(l))
			src = strings.Join(append(append(append([]string{}, l[:i]...), l[i]), l[i:]...), "\n")
		}
		return total(src, o)
	}}
}

// all pairs of blocks of the corpus: as is, or in a container
func totalPairs() core.Family {
	containers := []struct{ before, sep, after string }{
		{"", "\n\n", "\n"}, {"", "\n", ""}, {"====\n", "\n\n", "\n====\n"}, {"* item\n+\n", "\n+\n", "\n"}, {"= Title\n:toc:\n\n", "\n\n", ""}, {"[cols=\"a,a\"]\n|===\n|", "\n|", "\n|===\n"},
	}
	return core.Family{Name: "pairs-of-blocks", Gen: func(g *core.Gen) *core.Case {
		c := core.PickOf(g, containers)
		a, b := core.PickOf(g, corpusBlocks), core.PickOf(g, corpusBlocks)
		o := core.PickOf(g, []lib.Opts{{}, {Backend: "xhtml5", Wrap: true}})
		s1, _, _ := fill(a.src, "a")
		s2, _, _ := fill(b.src, "b")
		return total(strings.ReplaceAll(c.before, "«", "item")+s1+c.sep+s2+c.after, o)
	}}
}

// the attributes which the library knows
var totalAttrNames = strings.Fields("doctype description source-highlighter chroma-class-prefix idprefix idseparator numbered sectnums toc toclevels toc-title noheader nofooter " +
	"author authors email revision revnumber revdate revremark version-label example-caption figure-caption table-caption caution-caption note-caption unicode imagesdir iconsdir icons iconfont-remote " +
	"experimental hardbreaks leveloffset data-uri icontype stylesheet linkcss docinfo id title role roles option options opts link quoteAuthor quoteTitle source language linenums checkstyle interactive " +
	"start lines tags tag alt width height window align size rotate flip caption style text frame grid stripes float cols autowidth subs xrefLabel label kind counter1 attribution citetitle name target opts level separator format")

var totalAttrValues = []string{"", "1", "-1", "a", "a b", "preamble", "left", "manpage", "chroma", "none", "attributes", "+quotes", "normal", "99999999999999999999", "1,2", "{x}", "\"a", "<b>", "é"}

var smallTables = []string{"|===\n|===", "|===\n\n|===", "|===\n|\n|===", "|===\n|a\n|===", "|===\n|a\n\n|===", "|===\n|a|b\n|===", "|===\n|a\n\n|b\n|===", "|===\n|a|b\n\n|c\n|===", "|===\n|a|b\n|c\n|===", "|===\n\n|a\n\n\n|b\n\n|==="}

// all values of all known attributes: of the document, of the configuration, of blocks and of macros
func totalAttributes(all bool) []core.Family {
	blockNames, blockValues, places := totalAttrNames, totalAttrValues, []string{"", "* ", ".", "|===\n|", "== "}
	if !all {
		for i, n := range blockNames {
			if n == "id" {
				blockNames = blockNames[i:]
				break
			}
		}
		blockValues = []string{"", "1", "-1", "a b", "99999999999999999999", "{x}", "\"a", "+quotes"}
		places = []string{"", "."}
	}
	doc := "== A *b*\n\na {x} b image:i.png[] https://a.b[c] icon:tip[] footnote:[d] e <1>\n\n.T\n====\nNOTE: n\n====\n\n.T\nimage::i.png[]\n\n.T\n|===\n|a\n|===\n\n[source,go]\n----\na <1>\n----\n<1> b\n\n. c\n\n<<_a_b>>\n\n=== B\n\n[quote,a,b]\nc\n"
	return []core.Family{
		{Name: "document-attributes", Gen: func(g *core.Gen) *core.Case {
			n, v := core.PickOf(g, totalAttrNames), core.PickOf(g, totalAttrValues)
			o := lib.Opts{Wrap: true, Backend: g.Pick("html5", "xhtml5")}
			if v == "manpage" && n == "doctype" {
				return g.Skip()
			}
			switch g.Choose(5) {
			case 0:
				return total("= T\n:"+n+": "+v+"\n\npreamble {"+n+"}\n\n"+doc, o)
			case 1:
				return total(":"+n+": "+v+"\n\npreamble {"+n+"}\n\n"+doc, o)
			case 2:
				return total("= T\n\npreamble\n\n:"+n+": "+v+"\n\n{"+n+"}\n\n"+doc, o)
			case 3:
				return total("= T\nA B <c@d.ef>\nv1, 2020: x\n:"+n+": "+v+"\n:"+n+"!:\n\npreamble {"+n+"}\n\n"+doc, o)
			default:
				o.Attrs = map[string]interface{}{n: v}
				return total("= T\n:toc:\n\npreamble {"+n+"}\n\n"+doc, o)
			}
		}},
		{Name: "options", Gen: func(g *core.Gen) *core.Case {
			src := ""
			if k := g.Choose(len(corpusBlocks) + len(smallTables)); k < len(corpusBlocks) {
				src, _, _ = fill(corpusBlocks[k].src, "")
			} else {
				src = smallTables[k-len(corpusBlocks)]
			}
			opts := ""
			for _, o := range []string{"header", "footer", "autowidth", "interactive", "hardbreaks", "reversed", "noheader"} {
				if g.Bool() {
					opts += "%" + o
				}
			}
			cols := g.Pick("", `,cols="1"`, `,cols="1,1"`, `,cols="3*a"`)
			return total("["+opts+cols+"]\n"+src+"\n", lib.Opts{Wrap: true})
		}},
		{Name: "block-attributes", Gen: func(g *core.Gen) *core.Case {
			b := core.PickOf(g, corpusBlocks)
			n, v := core.PickOf(g, blockNames), core.PickOf(g, blockValues)
			s, _, _ := fill(b.src, "")
			return total("["+n+"="+v+"]\n"+s+"\n", lib.Opts{Backend: "xhtml5", Wrap: true})
		}},
		{Name: "macro-attributes", Gen: func(g *core.Gen) *core.Case {
			m := g.Pick("image:i.png[", "image::i.png[", "https://a.b[", "link:a[", "mailto:a@b.c[", "icon:tip[", "xref:a[", "xref:a.adoc[", "footnote:[", "btn:[", "menu:a[", "kbd:[", "stem:[", "pass:q[", "toc::[", "include::[", "[", "((", "a:b[", "a::b[")
			n, v := core.PickOf(g, blockNames), core.PickOf(g, blockValues)
			in := core.PickOf(g, places)
			q := g.Pick("", "\"")
			return total(in+m+n+"="+q+v+q+"]\nx\n", lib.Opts{Wrap: true})
		}},
	}
}

func init() {
	core.Register(&core.Property{
		ID:    "C01",
		Title: "Every document is converted: no panic, no hang, no error",
		Bounds: "all strings up to the given length over 34 characters of the markup in each of 23 contexts, all sequences of lines over an alphabet of 55 kinds of lines, all sequences of inline tokens, " +
			"all pairs of the blocks of the corpus (as is, adjacent, in an example, in a list item, in a table), and all prefixes, suffixes, deletions, insertions of a byte and duplications of a line of each block, " +
			"and all combinations of options of each block and of small tables, and all values of the known attributes, of the document, the configuration, blocks and macros",
		Assumptions: []string{"a conversion which takes more than 60 seconds does not end"},
		Families: func(tier string) []core.Family {
			d := 2
			f := []core.Family{
				totalStrings("characters", d, totalChars, totalContexts),
				totalStrings("characters-3", 3, totalChars, totalContexts[:1]),
				totalSeq("lines", 3, totalLines, []lib.Opts{{}}),
				totalTokens("inline", 3, [][2]string{{"", ""}}),
				totalTokens("inline-2", 2, [][2]string{{"* ", ""}, {"== ", "\n\na"}, {"[verse]\n", ""}, {".", "\na"}, {"|===\n|", "\n|==="}, {"[quote,", "]\na"}, {"a:: ", ""}, {":a: ", "\n\n{a}"}, {"= T\n:toc:\n\n== ", "\n"}}),
				totalMutations(),
				totalPairs(),
			}
			f = append(f, totalAttributes(tier == "thorough")...)
			if tier == "thorough" {
				f = append(f,
					totalStrings("characters-3-contexts", 3, totalChars, totalContexts),
					totalStrings("characters-4", 4, totalChars, totalContexts[:1]),
					totalSeq("lines-xhtml-wrap", 3, totalLines, []lib.Opts{{Backend: "xhtml5", Wrap: true}}),
					totalTokens("inline-3-contexts", 3, [][2]string{{"* ", ""}, {"== ", "\n\na"}, {"[verse]\n", ""}, {"|===\n|", "\n|==="}}),
					totalSeq("lines-4", 4, totalLines, []lib.Opts{{}}),
				)
			}
			return f
		},
	})
}
