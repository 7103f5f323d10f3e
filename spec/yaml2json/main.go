package main

import (
	"encoding/json"
	"io/ioutil"
	"log"
	"os"

	"gopkg.in/yaml.v3"
)

// All keys are text, at every level.
//
//@ contract stringKeys
//@ property C33
func specStringKeys(x interface{}) interface{} {
	if m, ok := x.(map[interface{}]interface{}); ok {
		r := make(map[string]interface{})
		for key, value := range m {
			text := key.(string)
			r[text] = stringKeys(value)
		}
		return r
	}
	if a, ok := x.([]interface{}); ok {
		for i := 0; i < len(a); i++ {
			a[i] = stringKeys(a[i])
		}
	}
	return x
}

// The document is written as indented JSON. Whatever goes wrong ends the program with an error.
//
//@ contract main
//@ property C33
func specYamlMain() {
	text, err := ioutil.ReadAll(os.Stdin)
	if err != nil {
		log.Fatal(err.Error())
		return
	}
	var doc interface{}
	if err = yaml.Unmarshal(text, &doc); err != nil {
		log.Fatal(err.Error())
		return
	}
	out, err := json.MarshalIndent(stringKeys(doc), "", " ")
	if err != nil {
		log.Fatal(err.Error())
		return
	}
	if _, err = os.Stdout.Write(out); err != nil {
		log.Fatal(err.Error())
	}
}
