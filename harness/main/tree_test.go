package main

import (
	"bytes"
	"encoding/json"
)

// parseTree reads JSON keeping numbers exact.
func vfParseTree(b []byte) any {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if d.Decode(&v) != nil {
		return nil
	}
	return v
}

func vfCopyTree(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, c := range x {
			m[k] = vfCopyTree(c)
		}
		return m
	case []any:
		a := make([]any, len(x))
		for i, c := range x {
			a[i] = vfCopyTree(c)
		}
		return a
	}
	return v
}
