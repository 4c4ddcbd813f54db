// Package lib drives the code under test through its public API and parses what it returns.
package lib

import (
	"io"
	"strings"
	"time"

	"github.com/bytesparadise/libasciidoc"
	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
	log "github.com/sirupsen/logrus"
)

func init() {
	log.SetLevel(log.PanicLevel)
	log.SetOutput(io.Discard)
}

// FixedTime is used as the last update of all documents, so that outputs are reproducible.
var FixedTime = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

// Opts are the options of a conversion.
type Opts struct {
	Backend  string
	Wrap     bool
	Filename string
	Attrs    map[string]interface{}
	CSS      []string
	Macros   map[string]configuration.MacroTemplate
}

// Config builds the configuration.
func (o Opts) Config() *configuration.Configuration {
	s := []configuration.Setting{configuration.WithLastUpdated(FixedTime)}
	if o.Filename != "" {
		s = append(s, configuration.WithFilename(o.Filename))
	} else {
		s = append(s, configuration.WithFilename("test.adoc"))
	}
	if o.Backend != "" {
		s = append(s, configuration.WithBackEnd(o.Backend))
	}
	if o.Wrap {
		s = append(s, configuration.WithHeaderFooter(true))
	}
	if o.CSS != nil {
		s = append(s, configuration.WithCSS(o.CSS))
	}
	for k, v := range o.Attrs {
		s = append(s, configuration.WithAttribute(k, v))
	}
	for k, v := range o.Macros {
		s = append(s, configuration.WithMacroTemplate(k, v))
	}
	return configuration.NewConfiguration(s...)
}

// Convert converts the source.
func Convert(src string, o Opts) (string, types.Metadata, error) {
	sb := &strings.Builder{}
	md, err := libasciidoc.Convert(strings.NewReader(src), sb, o.Config())
	return sb.String(), md, err
}

// HTML converts the source with the default options.
func HTML(src string) (string, error) {
	s, _, err := Convert(src, Opts{})
	return s, err
}
