package lib

import (
	"sync"

	"github.com/bytesparadise/libasciidoc/pkg/types"
	log "github.com/sirupsen/logrus"
)

type collector struct {
	mutex    sync.Mutex
	messages []string
}

func (c *collector) Levels() []log.Level { return log.AllLevels }

func (c *collector) Fire(e *log.Entry) error {
	c.mutex.Lock()
	defer c.mutex.Unlock()
	c.messages = append(c.messages, e.Level.String()+": "+e.Message)
	return nil
}

var logs = &collector{}

func init() { log.AddHook(logs) }

// ConvertLogged converts the source and returns what was logged at the given level or above
func ConvertLogged(src string, o Opts, level log.Level) (string, types.Metadata, []string, error) {
	previous := log.GetLevel()
	log.SetLevel(level)
	defer log.SetLevel(previous)
	logs.mutex.Lock()
	logs.messages = nil
	logs.mutex.Unlock()
	out, md, err := Convert(src, o)
	logs.mutex.Lock()
	defer logs.mutex.Unlock()
	m := logs.messages
	logs.messages = nil
	return out, md, m, err
}

// TakeLogs returns the messages logged since the last call.
func TakeLogs() []string {
	logs.mutex.Lock()
	defer logs.mutex.Unlock()
	m := logs.messages
	logs.messages = nil
	return m
}
