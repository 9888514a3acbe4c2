package binary

import (
	"reflect"
	"testing"
)

func TestVerifKv(t *testing.T) {
	kvRun(t, Marshal, Unmarshal, func(c *kvCase) (reflect.Type, map[string]string) { return kvType(&c.T), nil })
}
