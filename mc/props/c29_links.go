package props

import (
	"encoding/base64"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

var linkEscaper = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&#34;", "'", "&#39;")

// linkTargets after the scheme
var linkTargets = []string{
	"a.b", "a.b/", "a.b:80/c", "a.b/c?d=e&f=g#h", "a.b/_c_/*d*/`e`", "a.b/~c~^d^#e#", "a.b/c.d,e;f!g?h", "é.b/ü", "a.b/%20c--d", "a.b/(c)", "a.b/c'd\"e", "a.b/c@d.e", "a.b/http://c", "a/...b", "a.b/(c)d(e)f", "a.b/link:c", "a.b/((c))d", "a.b/c=d:e", "a.b/$+|",
}

var linkSchemes = []string{"http://", "https://", "ftp://", "irc://"}

// what is around a link: the source and the result
type linkContext struct{ before, after, htmlBefore, htmlAfter string }

var bareContexts = []linkContext{
	{"", "", "", ""},
	{"x ", " y", "x ", " y"},
	{"(", ")", "(", ")"},
	{"x, ", ", y", "x, ", ", y"},
	{"x: ", ".", "x: ", "."},
	{"", "! y", "", "! y"},
	{"(x ", "?)", "(x ", "?)"},
	{"x\n", "\ny", "x\n", "\ny"},
	{"*x* ", " _y_", "<strong>x</strong> ", " <em>y</em>"},
	{"x ", "...", "x ", "&#8230;&#8203;"},
	{"<", ">", "", ""},
	{"x <", "> y", "x ", " y"},
	{"x [", "]", "x [", "]"},
	{"x ", "; y", "x ", "; y"},
	{"", " +\ny", "", "<br>\ny"},
	{"x ", "[]y", "x ", "y"},
	{"", " http://z.", "", ` <a href="http://z" class="bare">http://z</a>.`},
	{"x@y.z ", " x@y.z", `<a href="mailto:x@y.z">x@y.z</a> `, ` <a href="mailto:x@y.z">x@y.z</a>`},
}

// linkCase: the text becomes the HTML, in the given place.
func linkCase(place linkPlace, text, html string, attrs map[string]interface{}) *core.Case {
	src := strings.ReplaceAll(place.src, "«", text)
	return &core.Case{
		Desc: fmt.Sprintf("%q attributes %v", src, attrs),
		Check: func(r *core.Run) error {
			out, _, err := lib.Convert(src, lib.Opts{Attrs: attrs})
			if err != nil {
				return err
			}
			r.Outcome(out)
			want := strings.ReplaceAll(place.html, "«", html)
			if !strings.Contains(out, want) {
				return fmt.Errorf("no %s in %s", want, out)
			}
			return nil
		},
	}
}

// places where there may be a link
type linkPlace struct{ src, html string }

var linkPlaces = []linkPlace{
	{"«\n", "<p>«</p>"},
	{"* «\n* b\n", "<p>«</p>"},
	{". a\n. «\n", "<p>«</p>"},
	{"a:: «\n", "<p>«</p>"},
	{"«:: a\n", `<dt class="hdlist1">«</dt>`},
	{"a «\n", "<p>a «</p>"},
	{"NOTE: «\n", "«\n</td>"},
	{"====\n«\n====\n", "<p>«</p>"},
	{"[quote]\n«\n", "<blockquote>\n«\n</blockquote>"},
	{"[verse]\n«\n", `<pre class="content">«</pre>`},
	{"|===\n|«\n|a «\n|===\n", `<p class="tableblock">a «</p>`},
	{"|===\na|\n* «\n|===\n", "<p>«</p>"},
	{"== «\n\na\n", "«</h2>"},
	{".«\n====\na\n====\n", `<div class="title">«</div>`[len(`<div class="title">`):]},
	{"*«*\n", "<strong>«</strong>"},
	{"_a « b_ c\n", "<em>a « b</em> c"},
	{"a footnote:[b « c]\n", "b « c\n"},
	{"----\n«\n----\n\n* a\n+\n«\n", "<p>«</p>"},
	{"----\na <1>\n----\n<1> «\n", "<p>«</p>"},
	{"[subs=macros]\n----\n«\n----\n", "<pre>«</pre>"},
}

// a text of a link
var linkTexts = []struct{ src, html string }{
	{"c", "c"}, {"c d e", "c d e"}, {"*c*", "<strong>c</strong>"}, {"c _d_ `e`", "c <em>d</em> <code>e</code>"},
	{`"c, d"`, "c, d"}, {`"c=d"`, "c=d"}, {"c & d", "c &amp; d"}, {"c <d>", "c &lt;d&gt;"}, {"c.d;e!", "c.d;e!"}, {"{x}", "value"}, {"c {x}", "c value"},
	{"c...", "c&#8230;&#8203;"}, {"(C)", "&#169;"}, {"http://d.e", "http://d.e"}, {"c@d.e", "c@d.e"}, {"c\nd", "c\nd"}, {`"c"`, "c"}, {"'c, d'", "c, d"}, {"#c#", "<mark>c</mark>"}, {"c^", "c^"}, {"c ^ d", "c ^ d"},
}

// attributes after a text
var linkAttrs = []struct{ src, before, after string }{
	{"", "", ""},
	{",role=r", "", ` class="r"`},
	{",role=\"r s\"", "", ` class="r s"`},
	{",window=_blank", "", ` target="_blank" rel="noopener"`},
	{"^", "", ` target="_blank" rel="noopener"`},
	{"^,role=r", "", ` class="r" target="_blank" rel="noopener"`},
	{",window=w", "", ` target="w"`},
	{",id=i", ` id="i"`, ""},
	{",id=i,role=r,window=_blank", ` id="i"`, ` class="r" target="_blank" rel="noopener"`},
	{",window=w,opts=noopener", "", ` target="w" rel="noopener"`},
	{",unknown=u", "", ""},
}

func bareLink(url string) string {
	return `<a href="` + linkEscaper.Replace(url) + `" class="bare">` + linkEscaper.Replace(url) + `</a>`
}

// an image: its target with the prefix imagesdir, its alternative text, sizes and link
func imageCase(block bool, target, alt, width, height, link, title, role, imagesdir, attrs string, backend string) *core.Case {
	list := []string{}
	if alt != "" || attrs == "positional" {
		if strings.ContainsAny(alt, ",=") {
			list = append(list, `"`+alt+`"`)
		} else {
			list = append(list, alt)
		}
	}
	switch attrs {
	case "positional":
		if height != "" {
			list = append(list, width, height)
		} else if width != "" {
			list = append(list, width)
		}
	default:
		if alt != "" {
			list = []string{"alt=\"" + alt + "\""}
		}
		if height != "" {
			list = append(list, "height="+height)
		}
		if width != "" {
			list = append(list, "width=\""+width+"\"")
		}
	}
	if link != "" {
		list = append(list, "link="+link)
	}
	lines := ""
	if block {
		if role != "" {
			lines += "[." + role + "]\n"
		}
		if title != "" {
			lines += "." + title + "\n"
		}
	} else {
		if role != "" {
			list = append(list, "role="+role)
		}
		if title != "" {
			list = append(list, "title=\""+title+"\"")
		}
	}
	src := lines + "image::" + target + "[" + strings.Join(list, ",") + "]\n"
	if !block {
		src = "a image:" + target + "[" + strings.Join(list, ",") + "] b\n"
	}
	path := strings.ReplaceAll(target, "{x}", "value")
	wantSrc := path
	if imagesdir != "" && !strings.HasPrefix(path, "/") && !strings.Contains(path, "://") {
		wantSrc = strings.TrimSuffix(imagesdir, "/") + "/" + path
		if imagesdir == "/" {
			wantSrc = "/" + path
		}
	}
	wantAlt := alt
	if alt == "" {
		wantAlt = path[strings.LastIndexAny(path, "/")+1:]
		if i := strings.IndexAny(wantAlt, "?#"); i >= 0 {
			wantAlt = wantAlt[:i]
		}
		if i := strings.LastIndex(wantAlt, "."); i >= 0 {
			wantAlt = wantAlt[:i]
		}
		wantAlt = strings.NewReplacer("-", " ", "_", " ").Replace(wantAlt)
	}
	return &core.Case{
		Desc: fmt.Sprintf("%q imagesdir %q %s", src, imagesdir, backend),
		Check: func(r *core.Run) error {
			a := map[string]interface{}{"x": "value"}
			if imagesdir != "" {
				a["imagesdir"] = imagesdir
			}
			out, _, err := lib.Convert(src, lib.Opts{Attrs: a, Backend: backend})
			if err != nil {
				return err
			}
			r.Outcome(out)
			doc, err := lib.ParseHTML(out)
			if err != nil {
				return err
			}
			imgs := doc.All("img")
			if len(imgs) != 1 {
				return fmt.Errorf("%d images in %s", len(imgs), out)
			}
			got := imgs[0].Attrs
			for _, w := range [][2]string{{"src", wantSrc}, {"alt", strings.ReplaceAll(wantAlt, "{x}", "value")}, {"width", width}, {"height", height}} {
				if got[w[0]] != w[1] {
					return fmt.Errorf("%s is %q, expected %q: %s", w[0], got[w[0]], w[1], out)
				}
			}
			inTitle := ""
			if !block {
				inTitle = title
			}
			if got["title"] != inTitle {
				return fmt.Errorf("title is %q, expected %q: %s", got["title"], inTitle, out)
			}
			if block && title != "" && !strings.Contains(out, "Figure 1. "+strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(title)) {
				return fmt.Errorf("no title: %s", out)
			}
			links := doc.All("a")
			if link == "" && len(links) > 0 || link != "" && (len(links) != 1 || links[0].Attrs["href"] != link || len(links[0].All("img")) != 1) {
				return fmt.Errorf("links %v, expected %q: %s", links, link, out)
			}
			if role != "" && !strings.Contains(out, " "+role+"\"") {
				return fmt.Errorf("no role: %s", out)
			}
			return nil
		},
	}
}

// embeddedCase: with data-uri, the content of the file of an image, which is found from the directory of the document (unless
// its path is absolute) and from imagesdir, is in the page; otherwise, and for remote images, the path or URL is.
func embeddedCase(block bool, target, imagesdir, filename string, embedded bool) *core.Case {
	src := "image::" + target + "[x]\n"
	if !block {
		src = "a image:" + target + "[x] b\n"
	}
	return &core.Case{
		Desc: fmt.Sprintf("%q imagesdir %q in %q embedded %v", src, imagesdir, filename, embedded),
		Check: func(r *core.Run) error {
			tree := map[string]string{}
			for _, d := range []string{"", "d/", "i/", "i/j/", "d/i/", "d/i/j/", "i/d/", "i/j/d/", "d/d/", "d/i/d/", "d/i/j/d/", "z/", "z/i/", "z/i/j/"} {
				for _, f := range []string{"a.png", "b.svg", "a.jpeg", "100%.gif", "value.png", "é.png"} {
					tree[d+f] = "content of " + d + f + strings.Repeat("\x00\xff", len(d)) // (all different, and not text)
				}
			}
			return lib.WithFiles(tree, func(cwd string) error {
				abs := func(s string) string {
					return strings.NewReplacer("ABS", cwd+"/z", "DIR", cwd).Replace(s)
				}
				attrs := map[string]interface{}{"x": "value"}
				if imagesdir != "" {
					attrs["imagesdir"] = abs(imagesdir)
				}
				if embedded {
					attrs["data-uri"] = ""
				}
				out, _, err := lib.Convert(abs(src), lib.Opts{Attrs: attrs, Filename: abs(filename)})
				if err != nil {
					return err
				}
				out = strings.ReplaceAll(out, cwd, "CWD")
				r.Outcome(out)
				path := strings.ReplaceAll(abs(target), "{x}", "value")
				if imagesdir != "" && !strings.HasPrefix(path, "/") && !strings.Contains(path, "://") {
					path = strings.TrimSuffix(abs(imagesdir), "/") + "/" + path
				}
				want := path
				if embedded && !strings.Contains(path, "://") {
					file := path
					if !strings.HasPrefix(file, "/") {
						file = filepath.Join(filepath.Dir(abs(filename)), path)
					}
					file = strings.TrimPrefix(filepath.Clean(file), cwd+"/")
					format := strings.TrimPrefix(filepath.Ext(file), ".")
					if format == "svg" {
						format = "svg+xml"
					}
					want = "data:image/" + format + ";base64," + base64.StdEncoding.EncodeToString([]byte(tree[file]))
				}
				doc, err := lib.ParseHTML(out)
				if err != nil {
					return err
				}
				imgs := doc.All("img")
				if len(imgs) != 1 {
					return fmt.Errorf("%d images in %s", len(imgs), out)
				}
				if got := imgs[0].Attrs["src"]; got != strings.ReplaceAll(want, cwd, "CWD") {
					return fmt.Errorf("src is %q, expected %q: %s", got, want, out)
				}
				return nil
			})
		},
	}
}

// imageAttributes: all combinations of the attributes of an image
func imageAttributes(g *core.Gen, backend string) *core.Case {
	block := g.Bool()
	type opt struct{ src, value string }
	role := core.PickOf(g, []opt{{}, {"role=r", "r"}, {`role="r s"`, "r s"}, {"[.r.s]", "r s"}})
	float := core.PickOf(g, []opt{{}, {"float=left", "left"}, {`float="right"`, "right"}})
	align := core.PickOf(g, []opt{{}, {"align=center", "text-center"}})
	title := core.PickOf(g, []opt{{}, {"title=T", "T"}, {`title="T, u"`, "T, u"}, {`title="a *b* {x} & c"`, "a b value & c"}, {".T *b* {x}", "T b value"}})
	id := core.PickOf(g, []opt{{}, {"id=i", "i"}, {"[#i]", "i"}})
	link := core.PickOf(g, []opt{{}, {"link=l", "l"}, {`link="http://a.b?c=d&e"`, "http://a.b?c=d&e"}})
	size := core.PickOf(g, []struct{ src, w, h string }{{"A", "", ""}, {"A,10,20", "10", "20"}, {"A,10", "10", ""}, {"A,height=20,width=\"10%\"", "10%", "20"}})
	var before string
	var list []string
	for _, o := range []opt{role, float, align, title, id, link} {
		switch {
		case o.src == "":
		case o.src[0] == '[' || o.src[0] == '.':
			if !block {
				return g.Skip()
			}
			before += o.src + "\n"
		default:
			list = append(list, o.src)
		}
	}
	if !block && id.src != "" { // (not in the output)
		return g.Skip()
	}
	if g.Bool() {
		if len(list) < 2 {
			return g.Skip()
		}
		for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
			list[i], list[j] = list[j], list[i]
		}
	}
	list = append([]string{size.src}, list...)
	src := before + "image::a.png[" + strings.Join(list, ",") + "]\n"
	sel := "div.imageblock"
	if !block {
		src = "x image:a.png[" + strings.Join(list, ",") + "] y\n"
		sel = "span.image"
	}
	classes := strings.Fields(float.value + " " + align.value + " " + role.value)
	return &core.Case{
		Desc: fmt.Sprintf("%q %s", src, backend),
		Check: func(r *core.Run) error {
			d, err := lib.DOM(src, lib.Opts{Backend: backend, Attrs: map[string]interface{}{"x": "value"}})
			if err != nil {
				return err
			}
			r.Outcome(d.Canon())
			n := d.First(sel)
			if n == nil || len(d.All("img")) != 1 {
				return fmt.Errorf("no image or several\n%s", d.Brief())
			}
			got := strings.Fields(n.Attrs["class"])[1:]
			sort.Strings(got)
			want := append([]string{}, classes...)
			sort.Strings(want)
			if fmt.Sprint(got) != fmt.Sprint(want) || n.Attrs["id"] != id.value {
				return fmt.Errorf("classes %q and id %q, expected %q and %q\n%s", got, n.Attrs["id"], want, id.value, d.Brief())
			}
			img := n.First("img")
			inImg := title.value
			if block {
				inImg = ""
				text := ""
				if t := n.First("div.title"); t != nil {
					text = t.Content()
				}
				if title.value != "" && text != "Figure 1. "+title.value || title.value == "" && text != "" {
					return fmt.Errorf("title %q, expected %q\n%s", text, title.value, d.Brief())
				}
			}
			for k, v := range map[string]string{"title": inImg, "width": size.w, "height": size.h, "alt": "A", "src": "a.png"} {
				if img.Attrs[k] != v {
					return fmt.Errorf("%s %q, expected %q\n%s", k, img.Attrs[k], v, d.Brief())
				}
			}
			a := n.First("a")
			if (a != nil) != (link.value != "") || a != nil && (a.Attrs["href"] != link.value || a.First("img") == nil) {
				return fmt.Errorf("link %v, expected %q\n%s", a, link.value, d.Brief())
			}
			return nil
		},
	}
}

func c29Families(tier string) []core.Family {
	thorough := tier == "thorough"
	return []core.Family{
		{Name: "bare", Gen: func(g *core.Gen) *core.Case {
			c := core.PickOf(g, bareContexts)
			url := core.PickOf(g, linkSchemes) + core.PickOf(g, linkTargets)
			p := linkPlaces[0]
			if thorough {
				p = core.PickOf(g, linkPlaces)
				if p != linkPlaces[0] && (strings.Contains(c.before+c.after, "\n") || strings.ContainsAny(p.src, "*_") || strings.Contains(p.src, "subs") || strings.Contains(p.src, "footnote") && strings.Contains(c.after, "]") || strings.Contains(p.src, "|") && strings.Contains(url, "|")) {
					return g.Skip()
				}
			}
			return linkCase(p, c.before+url+c.after, c.htmlBefore+bareLink(url)+c.htmlAfter, nil)
		}},
		{Name: "macros", Gen: func(g *core.Gen) *core.Case {
			t := core.PickOf(g, linkTexts)
			a := core.PickOf(g, linkAttrs)
			if strings.HasPrefix(a.src, "^") && (strings.HasSuffix(t.src, "}") || strings.ContainsAny(t.src, `"'`)) {
				return g.Skip() // (the mark goes inside the quotes, and after a reference to an attribute is not supported)
			}
			if strings.HasSuffix(t.src, "^") && !strings.HasPrefix(a.src, "^") {
				return g.Skip() // (the mark itself)
			}
			target := g.Pick("http://a.b", "https://a.b/c?d=e&f=g", "link:a", "link:a.html#b", "link:../a/b.c", "link:/a", "link:#a", "link:http://a.b/(c),d;", "mailto:a@b.c", "link:{x}/y", "http://{x}.b/{x}", "{u}", "{u}/z", "link:{nope}", "ftp://a/_b_*c*", "link:a(b)*c*", "link:a&b")
			if strings.HasPrefix(target, "{u}") && (strings.HasPrefix(t.src, "http") || strings.Contains(t.src, "@")) {
				return g.Skip() // (the text is parsed before the link is known)
			}
			href := strings.NewReplacer("link:", "", "{x}", "value", "{u}", "http://u.v").Replace(target)
			html := `<a` + a.before + ` href="` + linkEscaper.Replace(href) + `"` + a.after + `>` + t.html + `</a>`
			return linkCase(linkPlaces[5], target+"["+t.src+a.src+"]", html, map[string]interface{}{"x": "value", "u": "http://u.v"})
		}},
		{Name: "images", Gen: func(g *core.Gen) *core.Case {
			block := g.Bool()
			target := g.Pick("a.png", "d/a-b_c.svg", "http://u.v/d/a.png", "https://u.v/a.png?b=c", "/d/a.gif", "../a.b.png", "a", "é.png", "{x}/{x}.png", "a+b(c).png", "a*b*_c_.png", "a%b.png", "a:b.png")
			alt := g.Pick("", "A", "A b-c_d", "A, b", "*A*", "{x}", "A & <b> 'c'", "A(C)...", "a=b")
			n := g.Choose(5)
			width, height := []string{"", "10", "10", "50%", ""}[n], []string{"", "", "20", "20", "20"}[n]
			attrs := g.Pick("positional", "named")
			link, title, role, imagesdir, backend := "", "", "", "", ""
			if thorough || alt == "" || alt == "A, b" || n == 2 {
				switch g.Choose(6) {
				case 1:
					link = g.Pick("http://l.m/n?o=p&q=r", "l.html", "#l")
				case 2:
					title = g.Pick("T", "T & <u> (v)")
				case 3:
					role = g.Pick("r", "r.s")
					if strings.Contains(role, ".") && !block {
						return g.Skip()
					}
					role = strings.ReplaceAll(role, ".s", "")
				case 4:
					imagesdir = g.Pick("i", "i/", "/i/j", "../i", "http://i.j/k", "/")
				case 5:
					link, title, role, imagesdir, backend = "l", "T", "r", "i", "xhtml5"
				}
			}
			if attrs == "positional" && width == "" && height != "" && alt == "" || attrs == "named" && alt != "" && strings.Contains(alt, "'") {
				return g.Skip()
			}
			if imagesdir != "" && strings.HasPrefix(target, "a:") {
				return g.Skip() // (a path or a URL)
			}
			return imageCase(block, target, alt, width, height, link, title, role, imagesdir, attrs, backend)
		}},
		{Name: "image-attributes", Gen: func(g *core.Gen) *core.Case {
			backend := "html5"
			if thorough {
				backend = g.Pick("html5", "xhtml5")
			}
			return imageAttributes(g, backend)
		}},
		{Name: "embedded", Gen: func(g *core.Gen) *core.Case {
			block := g.Bool()
			target := g.Pick("a.png", "d/b.svg", "../a.jpeg", "100%.gif", "{x}.png", "é.png", "nope.png", "http://u.v/a.png", "https://u.v/d/a.svg?b=c", "ABS/a.png")
			dir := g.Pick("", "i", "i/j/", "http://u.v/i", "ABS/i")
			filename := g.Pick("DIR/m.adoc", "DIR/d/m.adoc", "DIR/i/../d/m.adoc")
			embedded := g.Bool()
			return embeddedCase(block, target, dir, filename, embedded)
		}},
		{Name: "emails", Gen: func(g *core.Gen) *core.Case {
			local := g.Pick("a", "a.b", "a-b", "a+b", "a_b", "a.b-c_d+e", "A1", "é", "a--b", "1")
			domain := g.Pick("c.d", "c", "c-d.e", "c.d.e", "c.d-e", "1.2", "c--d.e", "c.co")
			c := core.PickOf(g, []linkContext{{"", "", "", ""}, {"x ", " y", "x ", " y"}, {"(", ")", "(", ")"}, {"x, ", ", y", "x, ", ", y"}, {"x: ", ".", "x: ", "."}, {"<", ">", "&lt;", "&gt;"}, {"*", "*", "<strong>", "</strong>"}, {"_x ", "_", "<em>x ", "</em>"}, {"`", "`", "<code>", "</code>"}, {"x\n", "\ny", "x\n", "\ny"}, {"", "! y", "", "! y"}, {"x@y.z ", " x@y.z", `<a href="mailto:x@y.z">x@y.z</a> `, ` <a href="mailto:x@y.z">x@y.z</a>`}})
			e := local + "@" + domain
			p := linkPlaces[0]
			if thorough {
				p = core.PickOf(g, linkPlaces)
				if p != linkPlaces[0] && (strings.Contains(c.before+c.after, "\n") || strings.ContainsAny(p.src, "*_") || strings.Contains(p.src, "subs")) {
					return g.Skip()
				}
			}
			return linkCase(p, c.before+e+c.after, c.htmlBefore+`<a href="mailto:`+e+`">`+e+"</a>"+c.htmlAfter, nil)
		}},
		{Name: "places", Gen: func(g *core.Gen) *core.Case {
			p := core.PickOf(g, linkPlaces)
			type link struct{ src, html string }
			l := core.PickOf(g, []link{
				{"http://a.b[c]", `<a href="http://a.b">c</a>`}, {"link:a_b_c[*d*,role=r]", `<a href="a_b_c" class="r"><strong>d</strong></a>`}, {"x@y.z", `<a href="mailto:x@y.z">x@y.z</a>`}, {"mailto:x@y.z[c]", `<a href="mailto:x@y.z">c</a>`},
				{"http://a.b d", bareLink("http://a.b") + " d"}, {"(http://a.b/_c_)", "(" + bareLink("http://a.b/_c_") + ")"}, {"<http://a.b>", bareLink("http://a.b")}, {"http://a.b[c] link:d[e^]", `<a href="http://a.b">c</a> <a href="d" target="_blank" rel="noopener">e</a>`},
				{"\\http://a.b", "http://a.b"}, {"\\link:a[b]", "link:a[b]"}, {"\\http://a.b[c]", "http://a.b[c]"}, {"image:a.png[b]", `<span class="image"><img src="a.png" alt="b"></span>`}, {"image:a-b_c.png[]", `<span class="image"><img src="a-b_c.png" alt="a b c"></span>`},
			})
			if strings.HasPrefix(l.src, "image:") && strings.HasPrefix(p.src, "==") {
				return g.Skip() // (not supported)
			}
			if p.src == "*«*\n" && strings.Contains(l.src, "http") && !strings.HasSuffix(l.src, "]") && !strings.HasSuffix(l.src, "d") && l.src[0] != '<' || strings.Contains(p.src, "subs=macros") && strings.Contains(l.src, "*") {
				return g.Skip() // (what follows a URL without space is part of it)
			}
			return linkCase(p, l.src, l.html, nil)
		}},
	}
}

func init() {
	core.Register(&core.Property{ID: "C29", Title: "Links and images have the targets and texts given", Families: c29Families,
		Bounds:      "4 schemes with 19 locations in 18 contexts; 16 targets with 21 texts and 11 lists of attributes; 13 targets of images, inline and as blocks, with 9 texts, 5 sizes, links, titles, roles and 6 directories; all combinations of 7 attributes of images; 10 targets, 5 directories and 3 places of the document with and without embedding; 80 addresses in 12 contexts; 13 links in 20 places (in the thorough tier also all bare URLs and addresses in all places)",
		Assumptions: []string{"a mark which follows a URL without space in bold text is part of the URL", "URLs and addresses in the text of a link whose URL is in an attribute are not looked at", "images in the texts of links and images in titles of sections are not supported by the library"},
	})
}
