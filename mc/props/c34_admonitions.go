package props

import (
	"fmt"
	"path"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// iconSettings: the attributes on which icons depend, at some point of a document
type iconSettings map[string]string

func (s iconSettings) copy() iconSettings {
	r := iconSettings{}
	for k, v := range s {
		r[k] = v
	}
	return r
}

func (s iconSettings) mode() string {
	v, found := s["icons"]
	switch {
	case !found || v == "text":
		return "text"
	case v == "font":
		return "font"
	}
	return "image"
}

func (s iconSettings) src(name string) string {
	ext, found := s["icontype"]
	if !found {
		ext = "png"
	}
	dir, found := s["iconsdir"]
	if !found {
		dir, found = s["imagesdir"]
		if !found {
			dir = "images"
		}
		dir = strings.TrimSuffix(dir, "/") + "/icons"
	}
	if i := strings.Index(dir, "://"); i >= 0 {
		return strings.TrimSuffix(dir, "/") + "/" + name + "." + ext
	}
	return path.Clean(dir + "/" + name + "." + ext)
}

var admonitionNames = map[string]string{"NOTE": "Note", "TIP": "Tip", "IMPORTANT": "Important", "WARNING": "Warning", "CAUTION": "Caution"}
var admonitionKinds = []string{"NOTE", "TIP", "IMPORTANT", "WARNING", "CAUTION"}

func imgEnd(backend string) string {
	if backend == "xhtml5" {
		return "/>"
	}
	return ">"
}

// admonitionHTML is the expected admonition
func admonitionHTML(s iconSettings, kind, caption, id, roles, title, content, backend string) string {
	name := strings.ToLower(kind)
	if caption == "" {
		var found bool
		if caption, found = s[name+"-caption"]; !found {
			caption = admonitionNames[kind]
		}
	}
	icon := ""
	switch s.mode() {
	case "text":
		icon = `<div class="title">` + caption + `</div>`
	case "font":
		icon = `<i class="fa icon-` + name + `"`
		if caption != "" {
			icon += ` title="` + caption + `"`
		}
		icon += `></i>`
	default:
		icon = `<img src="` + s.src(name) + `"`
		if caption != "" {
			icon += ` alt="` + caption + `"`
		}
		icon += imgEnd(backend)
	}
	if id != "" {
		id = ` id="` + id + `"`
	}
	if roles != "" {
		roles = " " + roles
	}
	if title != "" {
		title = "<div class=\"title\">" + title + "</div>\n"
	}
	return "<div" + id + " class=\"admonitionblock " + name + roles + "\">\n<table>\n<tr>\n<td class=\"icon\">\n" + icon + "\n</td>\n<td class=\"content\">\n" + title + content + "</td>\n</tr>\n</table>\n</div>\n"
}

// admonitionForms: the ways to write an admonition: %K is the kind, « its content
var admonitionForms = []struct {
	name, src string
	block     bool
}{
	{"label", "%K: «", false},
	{"style", "[%K]\n«", false},
	{"block", "[%K]\n====\n«\n====", true},
	{"long block", "[%K]\n======\n«\n======", true},
	{"label with attributes", "[.r,x=y]\n%K: «", false},
	{"long label", "%K:  «", false},
	{"style with spaces", "[%K]  \n«", false},
}

// contents of paragraphs, and of blocks
var admonitionTexts = [][2]string{
	{"a", "a"}, {"a\nb", "a\nb"}, {"*a* {y}", "<strong>a</strong> value"}, {"a\n. b", "a\n. b"}, {"a +\nb", "a<br>\nb"},
	{"TIP: a", ""}, {"a\nNOTE: b", "a\nNOTE: b"}, {"http://a.b[c] & <d>", `<a href="http://a.b">c</a> &amp; &lt;d&gt;`},
}

var admonitionBlocks = [][2]string{
	{"a", "<div class=\"paragraph\">\n<p>a</p>\n</div>\n"},
	{"a\n\nb", "<div class=\"paragraph\">\n<p>a</p>\n</div>\n<div class=\"paragraph\">\n<p>b</p>\n</div>\n"},
	{"* a", "<div class=\"ulist\">\n<ul>\n<li>\n<p>a</p>\n</li>\n</ul>\n</div>\n"},
	{"----\na\n----", "<div class=\"listingblock\">\n<div class=\"content\">\n<pre>a</pre>\n</div>\n</div>\n"},
	{"", ""},
	{"\n\na\n\n", "<div class=\"paragraph\">\n<p>a</p>\n</div>\n"},
	{"TIP: a", "T"},
	{"// c", ""},
	{"--\na\n--", "<div class=\"openblock\">\n<div class=\"content\">\n<div class=\"paragraph\">\n<p>a</p>\n</div>\n</div>\n</div>\n"},
}

func c34Check(src, want string, attrs map[string]interface{}, backend string) *core.Case {
	return &core.Case{
		Desc: fmt.Sprintf("%q attributes %v %s", src, attrs, backend),
		Check: func(r *core.Run) error {
			out, _, err := lib.Convert(src, lib.Opts{Attrs: attrs, Backend: backend})
			if err != nil {
				return err
			}
			r.Outcome(out)
			if out != want {
				return fmt.Errorf("not as expected: %s\n%s", firstDiff(out, want), out)
			}
			return nil
		},
	}
}

// iconEntries: entries which change the icons
var iconEntries = [][2]string{
	{"icons", "font"}, {"icons", ""}, {"icons", "image"}, {"icons", "text"}, {"icontype", "svg"}, {"iconsdir", "d/e"}, {"iconsdir", "http://x.y/z"}, {"iconsdir", "./d/"}, {"iconsdir", "/d"},
	{"imagesdir", "im"}, {"imagesdir", "https://x.y"}, {"note-caption", "N b"}, {"tip-caption", ""}, {"warning-caption", "{y}"}, {"caution-caption", "Caution"}, {"important-caption", "I"},
}

// set makes the settings after an entry
func (s iconSettings) set(e [2]string) {
	v := e[1]
	if v == "{y}" {
		v = "value"
	}
	s[e[0]] = v
}

func c34Families(tier string) []core.Family {
	thorough := tier == "thorough"
	return []core.Family{
		{Name: "forms", Gen: func(g *core.Gen) *core.Case {
			f := core.PickOf(g, admonitionForms)
			kind := core.PickOf(g, admonitionKinds)
			backend := g.Pick("html5", "xhtml5")
			attrs := map[string]interface{}{"y": "value"}
			s := iconSettings{}
			header := ""
			switch g.Choose(5) {
			case 1:
				attrs["icons"], s["icons"] = "font", "font"
			case 2:
				header, s["icons"] = ":icons: font\n", "font"
			case 3:
				header, s["icons"] = "= T\n:icons:\n", ""
			case 4:
				attrs["icons"], s["icons"] = "image", "image"
			}
			lines, id, roles, title, caption := "", "", "", "", ""
			switch g.Choose(7) {
			case 1:
				lines, id = "[#i]\n", "i"
			case 2:
				lines, title = ".t *u*\n", "t <strong>u</strong>"
			case 3:
				lines, roles = "[.s]\n", "s"
			case 4:
				lines, caption = "[caption=Cap]\n", "Cap"
			case 5:
				lines, title, roles, id, caption = "[#i.s,caption=\"C d\"]\n.t\n", "t", "s", "i", "C d"
			case 6:
				lines, title = "// c\n.t\n\n", "t"
				if !f.block || f.name == "label" {
					lines, title = "// c\n", ""
				}
			}
			if f.name == "label with attributes" {
				if roles != "" { // (the roles of all lines are merged)
					return g.Skip()
				}
				roles = "r"
			}
			content, html := "", ""
			if f.block {
				c := core.PickOf(g, admonitionBlocks)
				content, html = c[0], c[1]
				if html == "T" {
					html = admonitionHTML(s, "TIP", "", "", "", "", "a\n", backend)
				}
			} else {
				c := core.PickOf(g, admonitionTexts)
				content, html = c[0], c[1]
				switch {
				case html == "" && !strings.Contains(f.src, ": "):
					return g.Skip()
				case html == "":
					html = content
				}
				html += "\n"
				if backend == "xhtml5" {
					html = strings.ReplaceAll(html, "<br>", "<br/>")
				}
			}
			block := strings.Replace(strings.Replace(f.src, "%K", kind, 1), "«", content, 1)
			want := admonitionHTML(s, kind, caption, id, roles, title, html, backend)
			block = lines + block
			para := func(t string) string { return "<div class=\"paragraph\">\n<p>" + t + "</p>\n</div>\n" }
			src := header + "\n"
			switch g.Choose(6) {
			case 0:
				src += block + "\n"
			case 1:
				src += "x\n\n" + block + "\n\ny\n"
				want = para("x") + want + para("y")
			case 2:
				src += "****\n" + block + "\n****\n"
				want = "<div class=\"sidebarblock\">\n<div class=\"content\">\n" + want + "</div>\n</div>\n"
			case 3:
				if strings.Contains(content, "\n. b") { // an item
					return g.Skip()
				}
				src += "* x\n+\n" + block + "\n"
				want = "<div class=\"ulist\">\n<ul>\n<li>\n<p>x</p>\n" + want + "</li>\n</ul>\n</div>\n"
			case 4:
				src += block + "\n\n" + "IMPORTANT: z\n"
				want += admonitionHTML(s, "IMPORTANT", "", "", "", "", "z\n", backend)
			case 5:
				src += "== S\n\n" + block + "\n"
				want = "<div class=\"sect1\">\n<h2 id=\"_s\">S</h2>\n<div class=\"sectionbody\">\n" + want + "</div>\n</div>\n"
			}
			return c34Check(src, want, attrs, backend)
		}},
		{Name: "not", Gen: func(g *core.Gen) *core.Case {
			// what looks like an admonition
			kind := g.Pick("NOTE", "CAUTION", "DANGER", "Note", "note", "NOTES")
			p := func(s string) string { return "<div class=\"paragraph\">\n<p>" + s + "</p>\n</div>\n" }
			forms := [][2]string{
				{"%K:a", p("%K:a")}, {"%K :a", p("%K :a")}, {"x %K: a", p("x %K: a")}, {"x\n%K: a", p("x\n%K: a")}, {"%K", p("%K")}, {"%K:", p("%K:")},
				{"%K:\na", p("%K:\na")}, {"*%K*: a", p("<strong>%K</strong>: a")}, {" %K: a", "<div class=\"literalblock\">\n<div class=\"content\">\n<pre>%K: a</pre>\n</div>\n</div>\n"},
				{"----\n%K: a\n----", "<div class=\"listingblock\">\n<div class=\"content\">\n<pre>%K: a</pre>\n</div>\n</div>\n"},
				{"\\%K: a", ""}, {"%K; a", p("%K; a")}, {"%K- a", p("%K- a")}, {"(%K: a)", p("(%K: a)")}, {"%K a", p("%K a")},
			}
			f := core.PickOf(g, forms)
			if f[1] == "" {
				return g.Skip()
			}
			pre := core.PickOf(g, [][2]string{{"", ""}, {"b\n\n", p("b")}, {"// c\n", ""}})
			return c34Check(pre[0]+strings.Replace(f[0], "%K", kind, 1)+"\n", pre[1]+strings.Replace(f[1], "%K", kind, 1), nil, g.Pick("html5", "xhtml5"))
		}},
		{Name: "settings", Gen: func(g *core.Gen) *core.Case {
			// the settings are those which apply at the point of the icon
			n := 2
			if thorough {
				n = 3
			}
			s := iconSettings{"y": "value"}
			attrs := map[string]interface{}{"y": "value"}
			src, want := "", ""
			backend := g.Pick("html5", "xhtml5")
			switch g.Choose(4) {
			case 1:
				e := core.PickOf(g, iconEntries)
				if e[1] == "{y}" {
					return g.Skip()
				}
				attrs[e[0]] = e[1]
				s.set(e)
			case 2:
				e := core.PickOf(g, iconEntries)
				src = "= T\n:" + e[0] + ": " + e[1] + "\n\n"
				s.set(e)
			case 3:
				src = "= T\n:icons: font\n:icons!:\n\n"
			}
			for i := 0; i < n; i++ {
				k := g.Choose(len(iconEntries) + 4)
				switch {
				case k < len(iconEntries):
					e := iconEntries[k]
					src += ":" + e[0] + ": " + e[1] + "\n\n"
					if _, found := attrs[e[0]]; found {
						return g.Skip()
					}
					s.set(e)
				case k == len(iconEntries):
					src += "NOTE: a\n\n"
					want += admonitionHTML(s, "NOTE", "", "", "", "", "a\n", backend)
				case k == len(iconEntries)+1:
					src += "[TIP]\n====\n====\n\n"
					want += admonitionHTML(s, "TIP", "", "", "", "", "", backend)
				case k == len(iconEntries)+2:
					src += "a icon:a-1_b[] b\n\n"
					want += "<div class=\"paragraph\">\n<p>a " + s.inlineIcon("a-1_b", nil, backend) + " b</p>\n</div>\n"
				case k == len(iconEntries)+3:
					src += ":icons!:\n\n"
					if _, found := attrs["icons"]; found {
						return g.Skip()
					}
					delete(s, "icons")
				}
			}
			if want == "" {
				return g.Skip()
			}
			return c34Check(src, want, attrs, backend)
		}},
		{Name: "inline", Gen: func(g *core.Gen) *core.Case {
			s := iconSettings{}
			attrs := map[string]interface{}{"y": "value"}
			switch g.Choose(3) {
			case 1:
				attrs["icons"], s["icons"] = "font", "font"
			case 2:
				attrs["icons"], s["icons"] = "", ""
			}
			backend := g.Pick("html5", "xhtml5")
			names := []string{"tip", "file-o", "1", "a_b"}
			if !thorough {
				names = names[:2]
			}
			name := core.PickOf(g, names)
			var parts []string
			opts := map[string]string{}
			max := 3
			if thorough {
				max = 7
			}
			size := g.Pick("", "2x", "size=lg")
			if size != "" {
				parts = append(parts, size)
				opts["size"] = strings.TrimPrefix(size, "size=")
				max--
			}
			for _, o := range []struct{ name, value string }{{"alt", "A b"}, {"title", "T u"}, {"rotate", "90"}, {"flip", "horizontal"}, {"role", "r"}, {"id", "i"}, {"link", "http://a.b/c"}, {"window", "_blank"}, {"width", "10"}, {"height", "20"}} {
				if max > 0 && g.Bool() {
					max--
					v := o.value
					if strings.Contains(v, " ") {
						v = "\"" + v + "\""
					} else if o.name == "link" && g.Bool() {
						v = "\"" + v + "\""
					}
					parts = append(parts, o.name+"="+v)
					opts[o.name] = o.value
				}
			}
			sep := g.Pick(",", ", ")
			if len(parts) < 2 && sep != "," {
				return g.Skip()
			}
			icon := "icon:" + name + "[" + strings.Join(parts, sep) + "]"
			html := s.inlineIcon(name, opts, backend)
			p := func(s string) string { return "<div class=\"paragraph\">\n<p>" + s + "</p>\n</div>\n" }
			switch g.Choose(5) {
			case 1:
				return c34Check("a "+icon+" b\n", p("a "+html+" b"), attrs, backend)
			case 2:
				return c34Check("a*"+icon+"*"+icon+"\n", p("a*"+html+"*"+html), attrs, backend)
			case 3:
				return c34Check("_"+icon+"_, b\n", p("<em>"+html+"</em>, b"), attrs, backend)
			case 4:
				return c34Check("|===\n|"+icon+"\n|===\n", "<table class=\"tableblock frame-all grid-all stretch\">\n<colgroup>\n<col style=\"width: 100%;\""+imgEnd(backend)+"\n</colgroup>\n<tbody>\n<tr>\n<td class=\"tableblock halign-left valign-top\"><p class=\"tableblock\">"+html+"</p></td>\n</tr>\n</tbody>\n</table>\n", attrs, backend)
			}
			return c34Check(icon+"\n", p(html), attrs, backend)
		}},
	}
}

func (s iconSettings) inlineIcon(name string, opts map[string]string, backend string) string {
	alt, found := opts["alt"]
	if !found {
		alt = name
	}
	attr := func(k, v string) string {
		if v == "" {
			return ""
		}
		return " " + k + "=\"" + v + "\""
	}
	var classes []string
	for _, k := range []string{"size", "rotate", "flip"} {
		if opts[k] != "" {
			if k == "size" {
				classes = append(classes, "fa-"+opts[k])
			} else {
				classes = append(classes, "fa-"+k+"-"+opts[k])
			}
		}
	}
	icon := ""
	switch s.mode() {
	case "text":
		icon = "[" + alt + "]"
	case "font":
		icon = "<i class=\"" + strings.Join(append([]string{"fa fa-" + name}, classes...), " ") + "\"" + attr("title", opts["title"]) + "></i>"
	default:
		icon = "<img src=\"" + s.src(name) + "\"" + attr("alt", alt) + attr("width", opts["width"]) + attr("height", opts["height"]) + attr("title", opts["title"]) + attr("class", strings.Join(classes, " ")) + imgEnd(backend)
	}
	if opts["link"] != "" {
		icon = "<a class=\"image\" href=\"" + opts["link"] + "\"" + attr("target", opts["window"]) + ">" + icon + "</a>"
	}
	class := "icon"
	if opts["role"] != "" {
		class += " " + opts["role"]
	}
	return "<span" + attr("id", opts["id"]) + " class=\"" + class + "\">" + icon + "</span>"
}

func init() {
	core.Register(&core.Property{ID: "C34", Title: "Admonitions and icons are shown with their kind, label and content", Families: c34Families,
		Bounds: "all 5 kinds of admonitions in 7 forms with 17 contents, 7 sets of attributes, 5 settings of the icons and 6 places, in both backends; 14 texts which look like admonitions with 6 words; all sequences of 2 (thorough: 3) out of 20 attribute entries and uses of icons, after 3 kinds of initial settings; inline icons with all sets of at most 3 (thorough: 7) of 11 attributes in 5 places",
	})
}
