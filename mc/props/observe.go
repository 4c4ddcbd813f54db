package props

import (
	"fmt"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/types"
)

func metadataString(md types.Metadata) string {
	sb := &strings.Builder{}
	fmt.Fprintf(sb, "%q %q %v %v", md.Title, md.LastUpdated, md.Authors, md.Revision)
	if md.TableOfContents != nil {
		fmt.Fprintf(sb, " toc %d", md.TableOfContents.MaxDepth)
		var walk func([]*types.ToCSection)
		walk = func(s []*types.ToCSection) {
			for _, e := range s {
				fmt.Fprintf(sb, " [%d %s %s", e.Level, e.ID, e.Title)
				walk(e.Children)
				sb.WriteString("]")
			}
		}
		walk(md.TableOfContents.Sections)
	}
	return sb.String()
}

func firstDiff(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		a, b := "(nothing)", "(nothing)"
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b {
			return fmt.Sprintf("line %d:\n- %s\n+ %s", i+1, a, b)
		}
	}
	return "(same)"
}

// attributeSets: no attribute, and sets of values for the attributes which the conversion depends on.
var attributeSets = []map[string]interface{}{
	{},
	{
		"unicode": "false", "icons": "font", "iconsdir": "ia", "icontype": "svg", "imagesdir": "da", "source-highlighter": "chroma", "chroma-style": "manni", "chroma-css": "style",
		"idprefix": "a-", "idseparator": "-", "sectnums": "", "sectanchors": "", "sectlinks": "", "toc": "", "toclevels": "1", "toc-title": "TA",
		"figure-caption": "Fa", "table-caption": "Ta", "example-caption": "Ea", "listing-caption": "La", "tip-caption": "TIPA", "note-caption": "NOTEA", "version-label": "va",
		"experimental": "", "hardbreaks": "", "linenums": "", "stem": "", "table-frame": "ends", "xrefstyle": "full", "description": "A", "author": "Ann", "email": "a@b.c", "revnumber": "1", "nofooter": "", "x": "xa", "v": "va",
	},
	{
		"unicode": "true", "icons": "image", "iconsdir": "ib", "icontype": "gif", "imagesdir": "db", "source-highlighter": "pygments", "pygments-style": "monokai", "pygments-css": "style", "chroma-style": "monokai", "chroma-css": "style", "chroma-class-prefix": "b-",
		"idprefix": "b_", "idseparator": "_", "toc": "preamble", "toclevels": "3", "toc-title": "TB",
		"figure-caption": "Fb", "table-caption": "Tb", "example-caption": "Eb", "listing-caption": "Lb", "tip-caption": "TIPB", "note-caption": "NOTEB", "version-label": "vb",
		"nofootnotes": "", "table-frame": "none", "description": "B", "author": "Bob", "email": "b@b.c", "revnumber": "2", "noheader": "", "x": "xb", "v": "vb",
	},
	{
		"source-highlighter": "chroma", "chroma-style": "monokai", "chroma-css": "style", "icons": "", "imagesdir": "dc", "sectnums": "", "partnums": "", "idprefix": "", "idseparator": ".",
	},
}

// everything is a document with all the blocks of the corpus.
func everything() string {
	sb := &strings.Builder{}
	sb.WriteString("= T: s\nAn Author <a@b.c>\nv1, 2020-01-01: r\n\nprologue\n\n== A b\n\n== A b\n\n=== \u00e9t\u00e9 <<_a_b>>\n\n'''\n\n[source,go]\n----\nvar x int // <1>\n----\n<1> c\n\n")
	for i, b := range corpusBlocks {
		src, _, _ := fill(b.src, fmt.Sprintf("e%dx", i))
		sb.WriteString(src + "\n\n")
		if i%10 == 9 {
			fmt.Fprintf(sb, "== S %d t\u00e9\n\n", i)
		}
	}
	return sb.String()
}
