package api

import "errors"

// What is wrong is always an error that names the cause.

//@ contract JSONNOtHash
//@ property C28
//@ inline
func specJSONNotHash(path string) error {
	return errors.New("file '" + path + "' does not contain a JSON object")
}

//@ contract MissingRequiredOption
//@ property C28
//@ inline
func specMissingOption(option string) error {
	return errors.New("missing required provider option '" + option + "'")
}

//@ contract MissingRequiredEnvironmentVariable
//@ property C28
//@ inline
func specMissingEnvironmentVariable(name string) error {
	return errors.New("missing required environment variable '" + name + "'")
}

//@ contract YamlNotHash
//@ property C28
//@ inline
func specYamlNotHash(path string) error {
	return errors.New("file '" + path + "' does not contain a YAML hash")
}
