package main

import (
	"bytes"
	"encoding/json"
	"reflect"
	"sort"
)

func jsonOf(v interface{}) ([]byte, error) {
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetEscapeHTML(false)
	err := e.Encode(v)
	return bytes.TrimSpace(buf.Bytes()), err
}

func crashChild(kind string, args []string) {}

// sortedKeys lists the keys of a map[int]T in order.
func sortedKeys(m interface{}) []int {
	var ids []int
	for _, k := range reflect.ValueOf(m).MapKeys() {
		ids = append(ids, int(k.Int()))
	}
	sort.Ints(ids)
	return ids
}
