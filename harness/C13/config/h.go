// Package config checks how configurations are read, and applied to channels.
package config

import (
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
	"github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/env"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

func max(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}

	return quick
}

const plain = gen.IdentCs + "./:-*(),;=[]{}+ $~%#@!?|^`\\"

// escaped is an arbitrary string and how it is written in XML.
func escaped(name string, n int) (string, string) {
	switch sym.Choice(name+" spelling", 4) {
	case 1:
		return "&", "&amp;"
	case 2:
		return "<" + gen.Of(name, n, plain) + ">", ""
	case 3:
		return "\"'", "&quot;&#39;"
	}

	s := gen.Of(name, n, plain)

	return s, s
}

func text(name string, n int) (string, string) {
	s, x := escaped(name, n)
	if x == "" {
		x = "&lt;" + s[1:len(s)-1] + "&gt;"
	}

	return s, x
}

func name(n string, l int) string { return gen.Of(n, l, plain) }

func load(file, content string) (*config.Config, error) {
	env.Reset()
	env.Put(file, content)

	return config.Load(file)
}

// CheckIncludes reads headers.
func CheckIncludes() {
	sym.Bound("up to 2 headers (3 in the thorough tier) with names of one byte or an escaped character, and any spelling of whether they are the system's, or none")

	type inc struct {
		src string
		sys bool
	}

	var (
		want []inc
		doc  = "<rtcg-gen><cpp variant=\"ros\">"
		ok   = true
	)

	for i := sym.Choice("headers", max(3, 4)); i > 0; i-- {
		s, x := "a", "a"
		if i == 1 {
			s, x = text("src", 1)
		} else {
			s = name("src", 1)
			x = s
		}

		in := inc{src: s}
		doc += "<include src=\"" + x + "\""

		switch sym.Choice("system", 7) {
		case 0:
		case 1:
			doc += " system=\"true\""
			in.sys = true
		case 2:
			doc += " system=\"false\""
		case 3:
			doc += " system=\"1\""
			in.sys = true
		case 4:
			doc += " system=\"0\""
		case 5:
			doc += " system=' TRUE '"
			in.sys = true
		default:
			doc += " system=\"yes\""
			ok = false
		}

		doc += " />"
		want = append(want, in)
	}

	c, err := load("gen.xml", doc+"</cpp></rtcg-gen>")
	sym.Assert((err == nil) == ok, "a configuration is read exactly if it is well-formed")

	if err != nil {
		sym.Assert(c == nil, "there is no configuration if there is an error")
		sym.Reach("bad attribute")

		return
	}

	sym.Assert(len(c.Cpps) == 1 && c.Cpps[0].Variant == cpp.VariantRos && len(c.Cpps[0].Includes) == len(want), "headers are all read")

	for i, in := range c.Cpps[0].Includes {
		sym.Assert(sym.And(sym.EqStr(in.Src, want[i].src), in.IsSystem == want[i].sys), "headers are read in order, as system or local")
	}

	sym.Reach("read")
}

// CheckChannels reads channels, and applies them to suites.
func CheckChannels() {
	sym.Bound("up to 3 channels (4 in the thorough tier) with names of a letter and no types or ones of an arbitrary byte, and suites of up to 2 channels of any letter and type, after another suite or not, in all orders of iteration")

	doc := "<rtcg-gen><cpp variant='animate'>"

	var names, types []string

	for i := sym.Choice("channels", max(4, 5)); i > 0; i-- {
		n, t := gen.Of("name", 1, gen.Letters), ""
		doc += "<channel name='" + n + "'"

		if sym.Choice("type", 2) == 1 {
			t = name("type", 1)
			doc += " type='" + t + "'"
		}

		doc += "/>"
		names, types = append(names, n), append(types, t)
	}

	c, err := load("gen.xml", doc+"</cpp></rtcg-gen>")
	sym.Assert(err == nil, "a configuration is read")

	if err != nil {
		return
	}

	got := c.Cpps[0].Channels
	sym.Assert(len(got) == len(names), "channels are all read")

	for i := range got {
		sym.Assert(sym.And(sym.EqStr(got[i].Name, names[i]), sym.EqStr(got[i].Type, types[i])), "channels are read in order with their types")
	}

	tm := stm.TypeMap{}

	var suite []string

	for i := sym.Choice("suite", 3); i > 0; i-- {
		n := gen.Of("suite channel", 1, gen.Letters)
		for _, s := range suite {
			if s == n {
				sym.Stop()
			}
		}

		suite = append(suite, n)
		tm[n] = []*rstype.RsType{rstype.Empty(), rstype.Arithmos(rstype.ArithmosDomainNat), rstype.Enum()}[i]
	}

	// Another suite makes no difference.
	if sym.Choice("earlier", 2) == 1 {
		_ = c.Cpps[0].Process(stm.TypeMap{"zz": rstype.Enum(), "a": rstype.Empty()})
	}

	sym.MapOrder(3)

	ctx := c.Cpps[0].Process(tm)

	sym.MapOrder(0)

	over := false

	for _, n := range suite {
		last := ""

		for i := range names {
			if names[i] == n {
				last = types[i]
			}
		}

		found := last != ""
		over = over || found
		ct, ok := ctx.ChannelTypes[n]
		sym.Assert(ok && ct.Base == tm[n], "each channel of the suite keeps its inferred type")
		sym.Assert(ct.HasOverride() == found, "a channel's type is overridden exactly if it is configured")
		sym.Assert(ct.Override == last, "the last type that is configured for a channel counts")
	}

	sym.Assert(len(ctx.ChannelTypes) == len(suite), "only the suite's channels have types")
	sym.Assert(ctx.HasConversion == over, "conversion code is expected exactly if a channel of the suite is overridden")

	if over {
		sym.Reach("overridden")
	} else {
		sym.Reach("not overridden")
	}
}

// CheckBig reads large configurations.
func CheckBig() {
	sym.Bound("a configuration with 12 headers and 15 channels (some twice), of which one each has an arbitrary name, for a suite of 12 channels, with at most one iteration that is backwards, and a package with 12 dependencies of each kind; and with 270 for 12 and 15")

	n, nc := 12, 15
	huge := sym.Choice("huge", 2) == 1

	if huge {
		n, nc = 270, 270
	}

	var (
		doc    = "<rtcg-gen><cpp variant='ros'>"
		names  []string
		types  []string
		srcs   []string
		deps   = [2][]string{}
		tags   = []string{"buildtool_depend", "depend"}
		at     = 0
		tm     = stm.TypeMap{}
		suites []string
	)

	if huge {
		at = []int{0, 128, 256, 269}[sym.Choice("at", 4)]
	} else {
		at = sym.Choice("at", 12)
	}

	for i := 0; i < n; i++ {
		s := "dir/h" + gen.Dec(i) + ".h"
		if i == at {
			s = name("src", 3)
		}

		srcs = append(srcs, s)
		doc += "<include src='" + s + "'"

		if i%3 == 1 {
			doc += " system='true'"
		}

		doc += "/>"
	}

	for i := 0; i < nc; i++ {
		n := "c" + gen.Dec(i*i%(nc-4))
		if i == at {
			n = gen.Of("name", 2, gen.IdentCs)
		}

		t := "T" + gen.Dec(i)
		if i%5 == 4 {
			t = ""
		}

		names, types = append(names, n), append(types, t)
		doc += "<channel name='" + n + "' type='" + t + "'/>"
	}

	doc += "<catkin><package>"

	for i := 0; i < n; i++ {
		for j, t := range tags {
			d := t[:1] + gen.Dec(i*i%7)
			deps[j] = append(deps[j], d)
			doc += "<" + t + ">" + d + "</" + t + ">"
		}
	}

	c, err := load("gen.xml", doc+"</package></catkin></cpp></rtcg-gen>")
	sym.Assert(err == nil, "a configuration is read")

	if err != nil {
		return
	}

	p := &c.Cpps[0]
	sym.Assert(len(p.Includes) == len(srcs), "headers are all read")

	for i := range p.Includes {
		if i < len(srcs) {
			sym.Assert(p.Includes[i].Src == srcs[i] && p.Includes[i].IsSystem == (i%3 == 1), "headers are read in order, as system or local")
		}
	}

	sym.Assert(len(p.Channels) == len(names), "channels are all read")

	for i := range p.Channels {
		if i < len(names) {
			sym.Assert(p.Channels[i].Name == names[i] && p.Channels[i].Type == types[i], "channels are read in order with their types")
		}
	}

	for j, got := range [2][]string{p.Catkin.Package.BuildtoolDepends, p.Catkin.Package.Depends} {
		sym.Assert(len(got) == len(deps[j]), "dependencies are all read")

		for i := range got {
			if i < len(deps[j]) {
				sym.Assert(got[i] == deps[j][i], "dependencies are read in order")
			}
		}
	}

	for i := 0; i < n; i++ {
		n := "c" + gen.Dec(i)
		suites = append(suites, n)
		tm[n] = rstype.Enum()
	}

	if !huge {
		sym.MapOrder(1)
		sym.MapTurns(1)
	}

	ctx := p.Process(tm)

	sym.MapOrder(0)
	sym.Assert(len(ctx.ChannelTypes) == len(suites), "only the suite's channels have types")

	over := false

	for _, n := range suites {
		last := ""

		for i := range names {
			if names[i] == n {
				last = types[i]
			}
		}

		found := last != ""
		over = over || found
		ct, ok := ctx.ChannelTypes[n]
		sym.Assert(ok && ct.Base == tm[n], "each channel of the suite keeps its inferred type")
		sym.Assert(ct.HasOverride() == found && ct.Override == last, "the last type that is configured for a channel counts")
	}

	sym.Assert(ctx.HasConversion == over, "conversion code is expected exactly if a channel of the suite is overridden")
	sym.Reach("read")
}

// CheckVariants reads variants and their build files.
func CheckVariants() {
	sym.Bound("up to 2 variants, each with any spelling, right or wrong, Makefile or not, Catkin or not, with or without a package")

	doc := "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n<rtcg-gen>\n"
	ok := true

	type vari struct {
		v          cpp.Variant
		mk, ck, pk bool
	}

	var want []vari

	for i := sym.Choice("variants", 3); i > 0; i-- {
		var (
			v vari
			s string
		)

		switch sym.Choice("variant", 4) {
		case 0:
			s = "animate"
		case 1:
			s, v.v = "ros", cpp.VariantRos
		case 2:
			s, v.v = "ROS", cpp.VariantRos
		default:
			s = gen.Of("other", 3, gen.Lower)
			if s == "ros" {
				v.v = cpp.VariantRos
			} else {
				ok = false
			}
		}

		doc += "<cpp variant=\"" + s + "\">"

		if v.mk = sym.Choice("makefile", 2) == 1; v.mk {
			doc += "<makefile />"
		}

		switch sym.Choice("catkin", 3) {
		case 1:
			v.ck = true
			doc += "\n<catkin></catkin>"
		case 2:
			v.ck, v.pk = true, true
			doc += "<!-- with a package --><catkin><package/></catkin>"
		}

		doc += "</cpp>\n"
		want = append(want, v)
	}

	c, err := load("gen.xml", doc+"</rtcg-gen>\n")
	sym.Assert((err == nil) == ok, "unknown variants are refused, and only these")

	if err != nil {
		sym.Reach("unknown")

		return
	}

	sym.Assert(len(c.Cpps) == len(want), "variants are all read")

	for i := range c.Cpps {
		g := &c.Cpps[i]
		sym.Assert(g.Variant == want[i].v, "variants are read in order")
		sym.Assert((g.Makefile != nil) == want[i].mk, "a Makefile is configured exactly if it is written")
		sym.Assert((g.Catkin != nil) == want[i].ck, "Catkin is configured exactly if it is written")
		sym.Assert((g.Catkin != nil && g.Catkin.Package != nil) == want[i].pk, "a package is configured exactly if it is written")
		sym.Assert(len(g.Includes) == 0 && len(g.Channels) == 0, "nothing else is configured")
	}

	sym.Reach("read")
}

// CheckDirectory looks at where inputs are sought.
func CheckDirectory() {
	sym.Bound("paths of up to 2 directories of an arbitrary letter or dots, with or without a directory of any letters, digits and punctuation that XML has no use for in the configuration")

	path, dir := "", "."
	deep := sym.Choice("depth", 3)

	var segs []string

	for i := 0; i < deep; i++ {
		segs = append(segs, gen.Of("segment", 1, gen.Letters))
	}

	if deep > 0 {
		dir = strings.Join(segs, "/")
		path = dir + "/"
	}

	switch sym.Choice("spelling", 3) {
	case 1:
		path = "./" + path
	case 2:
		path = "x/../" + path
	}

	doc := "<rtcg-gen>"

	switch sym.Choice("directory", 3) {
	case 1:
		d := gen.Of("directory", max(2, 3), plain)
		doc += "<directory>" + d + "</directory>"
		dir = d
	case 2:
		doc += "<directory></directory>"
	}

	env.Reset()
	env.PutDir("x")
	env.Put(path+"g.xml", doc+"</rtcg-gen>")

	c, err := config.Load(path + "g.xml")
	sym.Assert(err == nil, "a configuration is read")

	if err == nil {
		sym.Assert(c.Directory == dir, "inputs are sought where the configuration says, or else where it is")
		sym.Reach("read")
	}

	c, err = config.Load(path + "h.xml")
	sym.Assert(err != nil && c == nil, "a configuration that is not there is an error")
}

// CheckMalformed cuts a configuration anywhere, or changes its names.
func CheckMalformed() {
	sym.Bound("a configuration cut at any byte, or with one byte of a tag's name changed to any other letter, or with any byte in place of its brackets and quotes, or with up to 2 arbitrary bytes or a comment or an element behind it, or with an element, an attribute or an entity of any letters that is not well-formed")

	const doc = `<rtcg-gen><cpp variant="ros"><makefile/><include src="a" system="true"/><channel name="b" type="c"/></cpp></rtcg-gen>`

	switch sym.Choice("how", 5) {
	case 4:
		x, y := gen.Of("x", 1, gen.Letters), gen.Of("y", 1, gen.Letters)

		if x == y {
			return
		}

		bad := []string{
			"<" + x + ">", "</" + x + ">", "<" + x + "></" + y + ">", "<" + x + "><" + y + "></" + x + "></" + y + ">",
			"<" + x + " " + y + "=1/>", "<" + x + " " + y + "/>", "<" + x + " " + y + "=/>", "<" + x + " " + y + "='/>", "<" + x + " " + y + "=\"<\"/>",
			"<" + x + " " + y + "='&'/>", "<" + x + " " + y + "='&" + x + ";'/>", "&", "&;", "&" + x + ";", "&" + x, "& " + x, "&#" + x + ";",
			"< " + x + "/>", "<" + x + "/", "<!--" + x, "<!--" + x + "--" + y + "-->", "<![CDATA[" + x, "<?" + x,
		}
		part := bad[sym.Choice("part", len(bad))]
		at := []int{10, 29, 40, len(doc) - 17}[sym.Choice("at", 4)]
		c, err := load("gen.xml", doc[:at]+part+doc[at:])
		sym.Assert(err != nil && c == nil, "a configuration that is not well-formed is an error")
		sym.Reach("broken")
	case 0:
		c, err := load("gen.xml", doc[:sym.Choice("cut", len(doc))])
		sym.Assert(err != nil && c == nil, "a configuration that is cut short is an error")
		sym.Reach("cut")
	case 1:
		i := 1 + sym.Choice("name at", len("rtcg-gen"))
		s := gen.Of("name byte", 1, gen.Letters)
		c, err := load("gen.xml", doc[:i]+s+doc[i+1:len(doc)-len("rtcg-gen>")]+doc[1:i]+s+doc[i+1:len("<rtcg-gen>")])
		same := s == doc[i:i+1]
		sym.Assert((err == nil) == same && (c != nil) == same, "another document is an error")
		sym.Reach("name")
	case 2:
		more, ok := "", true

		switch sym.Choice("more", 4) {
		case 0:
			more = sym.Str("behind", 1+sym.Choice("length", 2))
			for i := 0; i < len(more); i++ {
				ok = sym.And(ok, sym.In(more[i], " \t\r\n"))
			}
		case 1:
			more = "\n<!-- the end -->\n"
		case 2:
			more, ok = doc, false
		default:
			more, ok = "\n<rtcg-gen/>", false
		}

		c, err := load("gen.xml", doc+more)
		sym.Assert((err == nil) == ok && (c != nil) == ok, "a configuration with more than blanks and comments behind it is an error")
		sym.Reach("more")
	default:
		at := -1
		for n := sym.Choice("mark", 24); n >= 0; n-- {
			for at++; at < len(doc) && doc[at] != '<' && doc[at] != '>' && doc[at] != '"' && doc[at] != '='; at++ {
			}
		}

		// The start of an empty element can be text as well.
		if at >= len(doc) || doc[at] == '<' && (doc[at+1] == 'm' || doc[at+1] == 'i' || doc[at+1:at+3] == "ch") {
			return
		}

		s := gen.Of("mark byte", 1, gen.Letters)
		c, err := load("gen.xml", doc[:at]+s+doc[at+1:])
		sym.Assert(err != nil && c == nil, "a configuration with broken mark-up is an error")
		sym.Reach("mark")
	}
}

// CheckCatkin reads a package.
func CheckCatkin() {
	sym.Bound("a package in which any fields are absent or of an arbitrary byte or escaped character, with up to 2 dependencies of each kind")

	field := func(n string, open, end string) (string, string) {
		if sym.Choice(n, 2) == 0 {
			return "", ""
		}

		s := name(n, 1)

		return s, open + s + end
	}

	var (
		doc  string
		want [6]string
		x    string
	)

	switch sym.Choice("part", 3) {
	case 0:
		want[0], x = text("name", 1)
		doc += "<name>" + x + "</name>"
		want[1], x = field("version", "<version>", "</version>")
		doc += x
		want[2], x = field("description", "<description>", "</description>")
		doc += x
	case 1:
		want[3], x = field("license", "<license>", "</license>")
		doc += x
		want[4], x = text("maintainer", 1)
		doc += "<maintainer"
		m := x
		want[5], x = field("email", " email='", "'")
		doc += x + ">" + m + "</maintainer>"
	}

	lists := [2][]string{}

	for i, tag := range []string{"buildtool_depend", "depend"} {
		for j := sym.Choice(tag, 3); j > 0; j-- {
			s := name(tag, 1)
			lists[i] = append(lists[i], s)
			doc += "<" + tag + ">" + s + "</" + tag + ">"
		}
	}

	c, err := load("gen.xml", "<rtcg-gen><cpp variant='ros'><catkin><package>"+doc+"</package></catkin></cpp></rtcg-gen>")
	sym.Assert(err == nil, "a configuration is read")

	if err != nil {
		return
	}

	p := c.Cpps[0].Catkin.Package
	got := [6]string{p.Name, p.Version, p.Description, p.License, p.Maintainer.Name, p.Maintainer.Email}

	for i := range got {
		sym.Assert(got[i] == want[i], "fields of packages are as written")
	}

	for i, l := range [2][]string{p.BuildtoolDepends, p.Depends} {
		sym.Assert(len(l) == len(lists[i]), "dependencies are all read")

		for j := range l {
			if j < len(lists[i]) {
				sym.Assert(sym.EqStr(l[j], lists[i][j]), "dependencies are read in order")
			}
		}
	}

	sym.Reach("read")
}
