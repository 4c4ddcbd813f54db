package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// tcol is a column as specified
type tcol struct {
	halign, valign string
	weight         int // 0: automatic width
	header         bool
}

func defaultCol() tcol { return tcol{"left", "top", 1, false} }

// ttable is the table which is expected
type ttable struct {
	cols                 []tcol
	noWidth              bool
	header, footer       []string
	rows                 [][]string
	hasHeader, hasFooter bool
}

// layoutCells groups the cells in rows
func layoutCells(cells []string, n int) [][]string {
	var rows [][]string
	for len(cells) > n {
		rows, cells = append(rows, cells[:n]), cells[n:]
	}
	if len(cells) > 0 {
		rows = append(rows, cells)
	}
	return rows
}

func expectedTable(cols []tcol, cells []string, header, footer bool) *ttable {
	t := &ttable{cols: cols, rows: layoutCells(cells, len(cols))}
	if header && len(t.rows) > 0 {
		t.header, t.rows = t.rows[0], t.rows[1:]
	}
	if footer && len(t.rows) > 0 {
		t.footer, t.rows = t.rows[len(t.rows)-1], t.rows[:len(t.rows)-1]
	}
	return t
}

// checkTable compares the table with the expected one
func checkTable(n *lib.Node, t *ttable, content func(cell *lib.Node) string) error {
	var cg *lib.Node
	var parts []string
	section := map[string]*lib.Node{}
	for _, k := range n.Children() {
		switch k.Tag {
		case "colgroup":
			cg = k
		case "thead", "tbody", "tfoot":
			section[k.Tag] = k
			parts = append(parts, k.Tag)
		case "caption":
		default:
			return fmt.Errorf("unexpected <%s> in the table", k.Tag)
		}
	}
	var exp []string
	if t.header != nil {
		exp = append(exp, "thead")
	}
	if len(t.rows) > 0 {
		exp = append(exp, "tbody")
	}
	if t.footer != nil {
		exp = append(exp, "tfoot")
	}
	if strings.Join(parts, " ") != strings.Join(exp, " ") {
		return fmt.Errorf("expected the sections %v, got %v", exp, parts)
	}
	if len(exp) == 0 {
		return nil
	}
	// columns
	if cg == nil || len(cg.Children()) != len(t.cols) {
		return fmt.Errorf("expected %d columns", len(t.cols))
	}
	total, auto := 0, false
	for _, c := range t.cols {
		total += c.weight
		auto = auto || c.weight == 0
	}
	sum := 0.0
	for i, c := range cg.Children() {
		style := c.Attrs["style"]
		if t.noWidth || t.cols[i].weight == 0 {
			if style != "" {
				return fmt.Errorf("column %d should have no width, got %q", i, style)
			}
			continue
		}
		w, err := strconv.ParseFloat(strings.TrimSuffix(strings.TrimPrefix(style, "width: "), "%;"), 64)
		if err != nil {
			return fmt.Errorf("column %d: no width in %q", i, style)
		}
		e := float64(t.cols[i].weight)
		if !auto {
			e = e * 100 / float64(total)
		}
		if math.Abs(w-e) > 0.002 {
			return fmt.Errorf("column %d: expected a width of %f, got %f", i, e, w)
		}
		sum += w
	}
	if !t.noWidth && !auto && math.Abs(sum-100) > 0.001 {
		return fmt.Errorf("the sum of the widths is %f", sum)
	}
	// cells
	for _, s := range exp {
		rows := map[string][][]string{"thead": {t.header}, "tbody": t.rows, "tfoot": {t.footer}}[s]
		trs := section[s].Children()
		if len(trs) != len(rows) {
			return fmt.Errorf("%s: expected %d rows, got %d", s, len(rows), len(trs))
		}
		for i, tr := range trs {
			cells := tr.Children()
			if tr.Tag != "tr" || len(cells) != len(rows[i]) {
				return fmt.Errorf("%s: row %d has %d cells, expected %d", s, i, len(cells), len(rows[i]))
			}
			for j, c := range cells {
				tag := "td"
				if s == "thead" || s == "tbody" && t.cols[j].header {
					tag = "th"
				}
				if tag != c.Tag && !(s == "tfoot" && t.cols[j].header) { // header columns in the footer are not specified
					return fmt.Errorf("%s: cell %d,%d is a <%s>, expected <%s>", s, i, j, c.Tag, tag)
				}
				if cl := "tableblock halign-" + t.cols[j].halign + " valign-" + t.cols[j].valign; c.Attrs["class"] != cl {
					return fmt.Errorf("%s: cell %d,%d has the class %q, expected %q", s, i, j, c.Attrs["class"], cl)
				}
				if got := content(c); got != rows[i][j] {
					return fmt.Errorf("%s: cell %d,%d: expected\n%q, got\n%q", s, i, j, rows[i][j], got)
				}
			}
		}
	}
	return nil
}

// tableCase converts a table alone in its document
func tableCase(src string, t *ttable, more func(n *lib.Node) error) *core.Case {
	return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
		d, err := lib.DOM(src, lib.Opts{})
		if err != nil {
			return err
		}
		tables := body(d).Children()
		if len(tables) != 1 || tables[0].Tag != "table" {
			return fmt.Errorf("expected a single table, got\n%s", d.Brief())
		}
		r.Outcome(d.Canon())
		if err := checkTable(tables[0], t, (*lib.Node).Inline); err != nil {
			return fmt.Errorf("%v\n%s", err, d.Brief())
		}
		if more != nil {
			return more(tables[0])
		}
		return nil
	}}
}

// colsSpecs are attributes with their columns
var colsSpecs = []struct {
	src string
	n   int
}{{`"1"`, 1}, {"1", 1}, {`"1,1"`, 2}, {`"2*"`, 2}, {"2*", 2}, {`"3*"`, 3}, {`"1,2*"`, 3}, {`"2*,1"`, 3}, {`"2*,2*"`, 4}, {`"12*"`, 12}}

// cellBlocks are the contents of cells
var cellBlocks = []string{"x", "x y", "x\ny", "* x\n* y", ". x", "x:: y", "NOTE: x", "----\nx\n----", "....\nx\n----\n....", "====\nx\n====", "image::x.png[]", "*x* _y_", "[quote]\n____\nx\n____", ".x\n----\ny\n----", "* x\n** y\n* z", "'''", "--\nx\n--", "[[x]]\n* y", "[.r]\nx", "<x> & y", "x footnote:[y]", "****\nx\n****", "* x\n+\n----\ny\n----", "1. x\n2. y", "https://x.y[z]", "// x\ny", "```\nx\n```", "[source,go]\n----\nx := 1\n----"}

// cellInlines are lines of text without |
var cellInlines = []string{"x", "*x*", "x *y* _z_", "`x`", "https://x.y[z]", "x.y@z.com", "image:x.png[]", "<x> & \"y\"", "x -- y", "(C)", "#x#", "[.r]#x#", "**x**y", "x^2^", "x~2~", "\"`x`\"", "+<x>+", "pass:[<x>]", "((x))", "[[x]]y", "* x", ". x", "NOTE: x", "= x", "----", ".x", "link:x[y]", "{empty}x", "x 'y' z", "x...", "\\*x*", "kbd", "footnote:[x]", "xref:x[y]", "<<x,y>>", "1 < 2", "x;y", "a[b]", "'''", "x + y", "//x", "{plus}"}

func init() {
	core.Register(&core.Property{
		ID:          "C22",
		Title:       "Tables: every cell once and in place, in columns as specified",
		Bounds:      fmt.Sprintf("all tables of up to 6 cells (thorough: 8), each on the same line as the previous one, on its own line or after a blank line, with 0-3 columns by their first line or with %d column specifications, and all combinations of header (none, implicit, option) and footer; all specifications of up to 3 (4) columns with all alignments and several weights and styles; all sequences of up to 2 (3) ways to give its options; all combinations of the table attributes; %d inline contents in headers, bodies and footers, and %d block contents, up to 3 (4) per table", len(colsSpecs), len(cellInlines), len(cellBlocks)),
		Assumptions: []string{"without header, when the first line has other cells than the columns, a blank line after it is not generated (its meaning is not specified)", "incomplete rows at the end are kept"},
		Families: func(tier string) []core.Family {
			n := 0
			if tier == "thorough" {
				n = 1
			}
			return []core.Family{
				{Name: "shapes", Gen: func(g *core.Gen) *core.Case {
					max := 6 + 2*n
					k := g.Choose(len(colsSpecs) + 3)
					count := 1 + g.Choose(max)
					cols, attrs := 0, []string(nil)
					if k < len(colsSpecs) {
						cols, attrs = colsSpecs[k].n, append(attrs, "cols="+colsSpecs[k].src)
					}
					header := g.Pick("", "implicit", "%header", "options")
					footer := g.Bool()
					opts := ""
					switch {
					case header == "options" && footer:
						attrs = append(attrs, `options="header,footer"`)
					case header == "options":
						attrs = append(attrs, `options="header"`)
					case header == "%header":
						opts = "%header"
					}
					if footer && header != "options" {
						opts += "%footer"
					}
					if opts != "" {
						attrs = append([]string{opts}, attrs...)
					}
					var cells []string
					sb := &strings.Builder{}
					if len(attrs) > 0 {
						sb.WriteString("[" + strings.Join(attrs, ",") + "]\n")
					}
					sb.WriteString("|===\n")
					if header != "implicit" && g.Bool() {
						sb.WriteString("\n") // so, the first line is not a header
					}
					first, blank := 0, false // cells in the first line, and blank line after it
					for i := 0; i < count; i++ {
						cell := fmt.Sprintf("w%d", i)
						if i > 0 {
							// the first line has k-len(colsSpecs)+1 cells if there are no specified columns, or the cells of the header
							want := 0
							if k >= len(colsSpecs) {
								want = k - len(colsSpecs) + 1
							} else if header == "implicit" {
								want = cols
							}
							var sep string
							switch {
							case want > i:
								sep = " "
							case want == i:
								sep = "\n"
								if header == "implicit" {
									sep = "\n\n"
								} else if strings.HasPrefix(strings.SplitN(sb.String(), "|===\n", 2)[1], "\n") {
									sep = g.Pick("\n", "\n\n")
								}
							default:
								sep = g.Pick(" ", "\n", "\n\n")
							}
							if first == 0 && sep != " " {
								first, blank = i, sep == "\n\n"
							}
							sb.WriteString(sep)
						}
						sb.WriteString("|" + cell)
						cells = append(cells, cell)
					}
					sb.WriteString("\n|===\n")
					lead := strings.Contains(sb.String(), "|===\n\n")
					if header == "implicit" && (!blank || cols > 0 && first != cols) {
						return g.Skip()
					}
					if first == 0 {
						first = count
					}
					if k >= len(colsSpecs) {
						if first != k-len(colsSpecs)+1 {
							return g.Skip()
						}
						cols = first
					} else if header != "implicit" && blank && !lead {
						return g.Skip()
					}
					l := make([]tcol, cols)
					for i := range l {
						l[i] = defaultCol()
					}
					g.State(sb.String())
					return tableCase(sb.String(), expectedTable(l, cells, header != "", footer), nil)
				}},
				{Name: "columns", Gen: func(g *core.Gen) *core.Case {
					count := 1 + g.Choose(3+n)
					var specs []string
					var cols []tcol
					for i := 0; i < count; i++ {
						c := defaultCol()
						s, m := "", 1
						full := i == 0 && count < 3
						weights, styles := []string{"1", "2", "15", "~"}, []string{"", "h"}
						if full {
							weights, styles = []string{"", "1", "2", "3", "15", "~"}, []string{"", "h", "d"}
							if g.Bool() {
								m = 2
								s = "2*"
							}
							h := g.Pick("", "<", ">", "^")
							c.halign = map[string]string{"": "left", "<": "left", ">": "right", "^": "center"}[h]
							v := g.Pick("", ".<", ".>", ".^")
							c.valign = map[string]string{"": "top", ".<": "top", ".>": "bottom", ".^": "middle"}[v]
							s += h + v
						} else {
							h := g.Pick("", ">", "^.>")
							s += h
							switch h {
							case ">":
								c.halign = "right"
							case "^.>":
								c.halign, c.valign = "center", "bottom"
							}
						}
						w := core.PickOf(g, weights)
						switch w {
						case "":
						case "~":
							c.weight = 0
						default:
							c.weight, _ = strconv.Atoi(w)
						}
						s += w
						style := core.PickOf(g, styles)
						c.header = style == "h"
						s += style
						if s == "" {
							return g.Skip()
						}
						specs = append(specs, s)
						for j := 0; j < m; j++ {
							cols = append(cols, c)
						}
					}
					opt := ""
					header := g.Bool()
					if header {
						opt = "%header,"
					}
					var cells []string
					for i := 0; i < 2*len(cols); i++ {
						cells = append(cells, fmt.Sprintf("w%d", i))
					}
					src := "[" + opt + "cols=\"" + strings.Join(specs, ",") + "\"]\n|===\n|" + strings.Join(cells, "\n|") + "\n|===\n"
					g.State(src)
					return tableCase(src, expectedTable(cols, cells, header, false), nil)
				}},
				{Name: "options", Gen: func(g *core.Gen) *core.Case {
					// any set of options, in any order, in all notations, together or not
					var line, lines []string
					set := map[string]bool{}
					first := true // in the line
					flush := func() {
						if len(line) > 0 {
							lines = append(lines, "["+strings.Join(line, ",")+"]")
						}
						line, first = nil, true
					}
					for i := 0; i < 2+n; i++ {
						values := []string{core.PickOf(g, []string{"", "header", "footer", "autowidth", "other"})}
						if values[0] == "" {
							break
						}
						notations := []string{"%", "options=", `options="`, "opts=", `opts="`}
						if i == 2 {
							notations = notations[:2]
						}
						notation := core.PickOf(g, notations)
						if i < 2 && notation == "%" || strings.HasSuffix(notation, `"`) {
							if v := core.PickOf(g, []string{"", "header", "footer"}); v != "" {
								values = append(values, v)
							}
						}
						for _, v := range values {
							set[v] = true
						}
						switch {
						case notation == "%" && !first:
							return g.Skip() // (the first in its line)
						case notation == "%":
							line = append(line, "%"+strings.Join(values, "%"))
						case strings.HasSuffix(notation, `"`):
							line = append(line, notation+strings.Join(values, g.Pick(",", ", "))+`"`)
						default:
							line = append(line, notation+values[0])
						}
						first = false
						switch g.Choose(3) {
						case 1:
							flush()
						case 2:
							line = append(line, "width=50")
							flush()
						}
					}
					flush()
					src := strings.Join(lines, "\n") + "\n|===\n|w0 |w1\n|w2 |w3\n|w4 |w5\n|===\n"
					g.State(src)
					t := expectedTable([]tcol{defaultCol(), defaultCol()}, []string{"w0", "w1", "w2", "w3", "w4", "w5"}, set["header"], set["footer"])
					t.noWidth = set["autowidth"]
					return tableCase(src, t, nil)
				}},
				{Name: "attributes", Gen: func(g *core.Gen) *core.Case {
					var attrs []string
					class := []string{"tableblock"}
					add := func(name, class0 string, values ...string) string {
						v := core.PickOf(g, append([]string{""}, values...))
						if v != "" {
							attrs = append(attrs, name+"="+v)
						}
						return v
					}
					opts, id, role := "", "", ""
					autowidth := g.Bool()
					if autowidth {
						opts = "%autowidth"
					}
					if g.Bool() {
						id = "x"
						opts = "#x" + opts
					}
					if g.Bool() {
						role = "r"
						opts = ".r" + opts
					}
					if opts != "" {
						attrs = append(attrs, opts)
					}
					frame := add("frame", "", "all", "none", "sides", "topbot")
					if frame == "" {
						frame = "all"
					}
					grid := add("grid", "", "rows", "cols", "none")
					if grid == "" {
						grid = "all"
					}
					class = append(class, "frame-"+frame, "grid-"+grid)
					if s := add("stripes", "", "even", "hover"); s != "" {
						class = append(class, "stripes-"+s)
					}
					width := add("width", "", "50%", "50", "100%", "200")
					style := ""
					switch {
					case width == "100%" || width == "200":
						class = append(class, "stretch")
					case width != "":
						style = "width: 50%;"
					case autowidth:
						class = append(class, "fit-content")
					default:
						class = append(class, "stretch")
					}
					if f := add("float", "", "left", "right"); f != "" {
						class = append(class, f)
					}
					if role != "" {
						class = append(class, role)
					}
					src := "|===\n|w0 |w1\n|w2 |w3\n|===\n"
					if len(attrs) > 0 {
						src = "[" + strings.Join(attrs, ",") + "]\n" + src
					}
					title := g.Bool()
					if title {
						src = ".title\n" + src
					}
					t := expectedTable([]tcol{defaultCol(), defaultCol()}, []string{"w0", "w1", "w2", "w3"}, false, false)
					t.noWidth = autowidth
					return tableCase(src, t, func(n *lib.Node) error {
						if got, exp := n.Attrs["class"], strings.Join(class, " "); got != exp {
							return fmt.Errorf("expected the class %q, got %q", exp, got)
						}
						if n.Attrs["id"] != id || n.Attrs["style"] != style {
							return fmt.Errorf("expected the id %q and style %q, got %q and %q", id, style, n.Attrs["id"], n.Attrs["style"])
						}
						if c := n.Child("caption"); (c != nil) != title || title && c.Inline() != "Table 1. title" {
							return fmt.Errorf("caption: %v", c)
						}
						return nil
					})
				}},
				{Name: "inlines", Gen: func(g *core.Gen) *core.Case {
					// the cells have the same content as the lines of list items
					a, b := core.PickOf(g, cellInlines), core.PickOf(g, cellInlines)
					shape := g.Choose(5)
					inline := func(r *core.Run, s string, fn int) (string, error) {
						// the content of a paragraph in the middle of a line
						d, err := lib.DOM(strings.Repeat("xfootnote:[f] ", fn)+"w "+s+"\n", lib.Opts{})
						if err != nil {
							return "", err
						}
						c := markup(body(d).Child("div.paragraph").Child("p"))
						return c[strings.Index(c, "w ")+2:], nil
					}
					var src string
					switch shape {
					case 0:
						src = "|===\n|w " + a + " |w " + b + "\n|===\n"
					case 1:
						src = "|===\n|w " + a + "\n\n|w " + b + "\n|===\n"
					case 2:
						src = "[%header%footer]\n|===\n|w " + a + "\n|w " + b + "\n|===\n"
					case 3:
						src = "[cols=\"2*\"]\n|===\n|w " + a + "\n|w " + b + "\n|===\n"
					case 4:
						src = "[cols=\"h,1\"]\n|===\n|w " + a + "|w " + b + "\n\n|y |z\n|===\n"
					}
					return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
						d, err := lib.DOM(src, lib.Opts{})
						if err != nil {
							return err
						}
						var cells []*lib.Node
						d.Walk(func(n *lib.Node) bool {
							if n.Tag == "td" || n.Tag == "th" {
								cells = append(cells, n)
							}
							return true
						})
						if len(cells) < 2 {
							return fmt.Errorf("%d cells\n%s", len(cells), d.Brief())
						}
						fn := 0
						for i, s := range []string{a, b} {
							exp, err := inline(r, s, fn)
							if err != nil {
								return err
							}
							fn += strings.Count(s, "footnote:")
							c := cells[i]
							if k := c.Children(); len(k) == 1 && k[0].Is("p.tableblock") {
								c = k[0]
							}
							got := strings.TrimPrefix(markup(c), "w ")
							r.Outcome(got)
							if got != exp {
								return fmt.Errorf("cell %d: expected\n%s\n, got\n%s\n%s", i, exp, got, d.Brief())
							}
						}
						return nil
					}}
				}},
				{Name: "blocks", Gen: func(g *core.Gen) *core.Case {
					count := 1 + g.Choose(2+n)
					var blocks []string
					for i := 0; i < count; i++ {
						blocks = append(blocks, core.PickOf(g, cellBlocks))
					}
					cols := 1 + g.Choose(2)
					blank := g.Bool()
					sep := "\n"
					if blank {
						sep = "\n\n"
					}
					src := fmt.Sprintf("[cols=\"%d*\"]\n|===\n\n", cols)
					for i, b := range blocks {
						src += "a|" + g.Pick("", "\n") + b
						if i < len(blocks)-1 {
							src += sep
						}
					}
					src += "\n|===\n"
					return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
						d, err := lib.DOM(src, lib.Opts{})
						if err != nil {
							return err
						}
						var cells []*lib.Node
						if t := body(d).Child("table"); t != nil && t.Child("tbody") != nil {
							for _, tr := range t.Child("tbody").Children() {
								cells = append(cells, tr.Children()...)
							}
						}
						if len(cells) != len(blocks) {
							return fmt.Errorf("%d cells instead of %d\n%s", len(cells), len(blocks), d.Brief())
						}
						fn := 0
						for i, b := range blocks {
							e, err := lib.DOM(strings.Repeat("xfootnote:[f]\n\n", fn)+b+"\n", lib.Opts{})
							if err != nil {
								return err
							}
							exp := cellCanon(body(e).Children()[fn:])
							fn += strings.Count(b, "footnote:")
							got := cellCanon(cells[i].Children())
							r.Outcome(got)
							if got != exp {
								return fmt.Errorf("cell %d: expected\n%s\n, got\n%s", i, exp, got)
							}
						}
						return nil
					}}
				}},
			}
		},
	})
}

// cellCanon reads blocks, in cells or in documents
func cellCanon(nodes []*lib.Node) string {
	sb := &strings.Builder{}
	for _, n := range nodes {
		switch {
		case n.Is("div.content"):
			sb.WriteString(cellCanon(n.Children()))
		case n.Is("div.paragraph") && len(n.Children()) == 1:
			sb.WriteString("(" + markup(n.Children()[0]) + ")")
		case n.Is("p.tableblock"):
			sb.WriteString("(" + markup(n) + ")")
		case n.Attrs["id"] == "footnotes":
		default:
			sb.WriteString(n.Canon())
		}
	}
	return sb.String()
}
