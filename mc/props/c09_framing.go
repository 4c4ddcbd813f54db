package props

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/bytesparadise/libasciidoc"
	"verif/mc/core"
	"verif/mc/lib"
)

// pieceReader returns the source in pieces which end at the given positions.
type pieceReader struct {
	src   string
	ends  []int
	pos   int
	empty bool // an empty read (no byte and no error) before each piece
	eof   bool // io.EOF comes with the last bytes
	idle  bool
}

func (r *pieceReader) Read(p []byte) (int, error) {
	if r.pos == len(r.src) {
		return 0, io.EOF
	}
	if r.empty && !r.idle {
		r.idle = true
		return 0, nil
	}
	r.idle = false
	for len(r.ends) > 0 && r.ends[0] <= r.pos {
		r.ends = r.ends[1:]
	}
	end := len(r.src)
	if len(r.ends) > 0 {
		end = r.ends[0]
	}
	n := copy(p, r.src[r.pos:end])
	r.pos += n
	if r.eof && r.pos == len(r.src) {
		return n, io.EOF
	}
	return n, nil
}

// canonLines is the canonical form without the spaces at the end of lines of verbatim text
func canonLines(d *lib.Node) string {
	d.Walk(func(n *lib.Node) bool {
		if n.Tag == "" {
			l := strings.Split(n.Text, "\n")
			for i := range l {
				l[i] = strings.TrimRight(l[i], " \t")
			}
			n.Text = strings.Join(l, "\n")
		}
		return true
	})
	return d.Canon()
}

// framed: two sources give the same document
func framed(what, src, other string, o lib.Opts, canon bool) *core.Case {
	return &core.Case{Desc: fmt.Sprintf("%s source=%q", what, other), Check: func(r *core.Run) error {
		want, _, err := lib.Convert(src, o)
		if err != nil {
			return fmt.Errorf("of %q: %w", src, err)
		}
		got, _, err := lib.Convert(other, o)
		if err != nil {
			return err
		}
		r.Outcome(want)
		if got == want {
			return nil
		}
		if canon {
			a, err1 := lib.ParseHTML(want)
			b, err2 := lib.ParseHTML(got)
			if err := errors.Join(err1, err2); err != nil {
				return err
			}
			if canonLines(a) == canonLines(b) {
				return nil
			}
		}
		return fmt.Errorf("got %q, but %q for %q", got, want, src)
	}}
}

var framingHeaders = []string{"", "= «\n\n", "= «\n« « <a@b.cd>\nv1, 2020-01-01: «\n:toc:\n:x: «\n\n", "---\nt: «\n---\n\n", ":x: «\n\n"}

func init() {
	core.Register(&core.Property{
		ID:          "C09",
		Title:       "Line ends, pieces of input and trailing spaces do not change the result",
		Bounds:      "all blocks after all headers: all ways to read their source in up to three pieces (thorough: four), LF, CRLF or no end for the last line, a byte order mark; spaces at the end of each line and of pairs of lines; more blank lines, or blank lines with spaces, at the start, the end, and between blocks; all lengths of lines around the sizes of buffers in all places",
		Assumptions: []string{"spaces at the end of the lines of verbatim text are not compared"},
		Families: func(tier string) []core.Family {
			thorough := tier == "thorough"
			doc := func(g *core.Gen) string {
				h := core.PickOf(g, framingHeaders)
				s, _, _ := fill(h+core.PickOf(g, corpusBlocks).src+"\n", "A")
				return s
			}
			return []core.Family{
				{Name: "pieces", Gen: func(g *core.Gen) *core.Case {
					h := framingHeaders[0]
					if thorough {
						h = core.PickOf(g, framingHeaders)
					}
					src, _, _ := fill(h+core.PickOf(g, corpusBlocks).src+"\n", "A")
					mode := g.Choose(3)
					r := &pieceReader{src: src, empty: mode == 1, eof: mode == 2}
					switch g.Choose(3) {
					case 0: // one byte at a time
						for i := range len(src) {
							r.ends = append(r.ends, i)
						}
					case 1: // two pieces
						r.ends = []int{1 + g.Choose(len(src))}
					case 2: // three pieces, the second one of one byte (thorough: up to four bytes)
						n := 1
						if thorough {
							n = 4
						}
						k := g.Choose(len(src))
						r.ends = []int{k, k + 1 + g.Choose(n)}
						if r.ends[1] > len(src) {
							return g.Skip()
						}
					}
					ends := append([]int{}, r.ends...)
					return &core.Case{Desc: fmt.Sprintf("pieces=%v empty=%v eof=%v source=%q", ends, r.empty, r.eof, src), Check: func(run *core.Run) error {
						r := *r
						want, _, err := lib.Convert(src, lib.Opts{})
						if err != nil {
							return err
						}
						sb := &strings.Builder{}
						if _, err := libasciidoc.Convert(&r, sb, lib.Opts{}.Config()); err != nil {
							return fmt.Errorf("error: %w", err)
						}
						run.Outcome(want)
						if sb.String() != want {
							return fmt.Errorf("got %q instead of %q", sb.String(), want)
						}
						return nil
					}}
				}},
				{Name: "line-ends", Gen: func(g *core.Gen) *core.Case {
					h := core.PickOf(g, framingHeaders)
					a := core.PickOf(g, corpusBlocks)
					b := block{src: "«"}
					if thorough {
						b = core.PickOf(g, corpusBlocks)
					}
					src, _, _ := fill(h+a.src+"\n\n"+b.src, "A")
					bom := g.Bool()
					nl := g.Pick("\n", "\r\n")
					end := g.Bool()
					other := strings.ReplaceAll(src, "\n", nl)
					if end {
						other += nl
					}
					if bom {
						other = "\ufeff" + other
					}
					return framed("line ends", src+"\n", other, lib.Opts{Wrap: g.Bool()}, false)
				}},
				{Name: "mixed-line-ends", Gen: func(g *core.Gen) *core.Case {
					src := doc(g)
					l := strings.SplitAfter(src, "\n")
					i := g.Choose(len(l) - 1)
					l[i] = strings.TrimSuffix(l[i], "\n") + "\r\n"
					return framed("one CRLF", src, strings.Join(l, ""), lib.Opts{}, false)
				}},
				{Name: "trailing-spaces", Gen: func(g *core.Gen) *core.Case {
					src := doc(g)
					l := strings.SplitAfter(src, "\n")
					l = l[:len(l)-1]
					all := thorough || !strings.HasPrefix(src, "= ") && !strings.HasPrefix(src, "--")
					sps := []string{" ", " \t "}
					if thorough {
						sps = []string{" ", "\t", "  ", " \t "}
					}
					sp := core.PickOf(g, sps)
					i := g.Choose(len(l))
					l[i] = strings.TrimSuffix(l[i], "\n") + sp + "\n"
					if k := 0; all {
						k = g.Choose(len(l) - i)
						if k == 0 {
							return framed("trailing spaces", src, strings.Join(l, ""), lib.Opts{}, true)
						}
						l[i+k] = strings.TrimSuffix(l[i+k], "\n") + sp + "\n"
					}
					return framed("trailing spaces", src, strings.Join(l, ""), lib.Opts{}, true)
				}},
				{Name: "blank-lines", Gen: func(g *core.Gen) *core.Case {
					h := core.PickOf(g, framingHeaders)
					bl := g.Pick("\n", "\n\n", " \n", "\t\n", "  \n\n", "\r\n")
					src, _, _ := fill(h+core.PickOf(g, corpusBlocks).src+"\n", "A")
					if g.Bool() {
						return framed("blank lines", src, src+bl, lib.Opts{}, false)
					}
					if strings.HasPrefix(h, "---") {
						return g.Skip()
					}
					return framed("blank lines", src, bl+src, lib.Opts{}, false)
				}},
				{Name: "blank-lines-between", Gen: func(g *core.Gen) *core.Case {
					h := framingHeaders[:1]
					bls := []string{"\n\n", "\t\n"}
					if thorough {
						h = framingHeaders
						bls = []string{"\n\n", "\n\n\n", " \n", "\t\n", "  \n\n", "\r\n"}
					}
					hd := core.PickOf(g, h)
					a, b := core.PickOf(g, corpusBlocks), core.PickOf(g, corpusBlocks)
					bl := core.PickOf(g, bls)
					src, _, _ := fill(hd+a.src+"\n\n"+b.src+"\n", "A")
					other, _, _ := fill(hd+a.src+"\n"+bl+b.src+"\n", "A")
					return framed("blank lines", src, other, lib.Opts{}, false)
				}},
				{Name: "long-lines", Gen: func(g *core.Gen) *core.Case {
					sizes := []int{}
					for _, n := range []int{512, 1024, 4096, 8192, 32768, 65536, 131072, 1 << 20} {
						sizes = append(sizes, n-2, n-1, n, n+1)
					}
					if !thorough {
						sizes = []int{4095, 4096, 65534, 65535, 65536, 65537, 131072}
					}
					n := core.PickOf(g, sizes)
					p := core.PickOf(g, []struct{ before, after string }{
						{"", "\n"}, {"a\n", "\nb\n"}, {"----\n", "\n----\n"}, {"// ", "\nb\n"}, {"* ", "\n* b\n"}, {"|===\n|", "\n|===\n"}, {":x: ", "\n\na{x}b\n"}, {"= ", "\n\na\n"}, {"== ", "\n\na\n"}, {"a:: ", "\nb:: c\n"},
						{"++++\n", "\n++++\n"}, {" ", "\n\nb\n"}, {"ifdef::x[", "]\na\n"}, {"ifndef::x[", "]\na\n"}, {"a *", "* b\n"}, {"a https://", "[b]\n"}, {"image::", "[b]\n"}, {"[[", "]]\na\n"}, {".", "\na\n"}, {"a `+", "+` b\n"}, {"////\n", "\n////\n\na\n"}, {"a footnote:[", "] b\n"},
					})
					unit := g.Pick("x", "word ")
					if unit != "x" && (strings.Contains(p.before, ":") && !strings.HasPrefix(p.before, ":x") && !strings.HasPrefix(p.before, "a::") || strings.Contains(p.before, "[[")) {
						return g.Skip()
					}
					var text string
					if n > len(p.before) {
						text = strings.Repeat(unit, n)[:n-len(p.before[strings.LastIndex(p.before, "\n")+1:])]
					}
					text = strings.TrimRight(text, " ") + "z"
					return &core.Case{Desc: fmt.Sprintf("length=%d unit=%q in %q", n, unit, p.before+"..."+p.after), Check: func(r *core.Run) error {
						// the same as for a short text
						want, _, err := lib.Convert(p.before+"LONG"+p.after, lib.Opts{})
						if err != nil {
							return err
						}
						got, _, err := lib.Convert(p.before+text+p.after, lib.Opts{})
						if err != nil {
							return err
						}
						r.Outcome(want)
						got = strings.ReplaceAll(got, text, "LONG")
						got = strings.ReplaceAll(got, strings.ReplaceAll(text, " ", "_"), "long")
						got, want = strings.ReplaceAll(got, "LONG", "long"), strings.ReplaceAll(want, "LONG", "long")
						if got != want {
							return fmt.Errorf("got %.1000q, expected as with a short text: %q", got, want)
						}
						return nil
					}}
				}},
			}
		},
	})
}
