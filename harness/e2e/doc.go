// Package verife2e runs the built program on generated inputs and compares
// with a model of the whole run.
package verife2e
