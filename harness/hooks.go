package main

import (
	"fmt"
	"strings"

	"github.com/acronis/go-raml/v2"
	"gopkg.in/yaml.v3"
)

// hookKeys lists every hook point of the library.
var hookKeys = []raml.HookKey{
	raml.HookBeforeParseDataType, raml.HookBeforeBaseShapeInherit, raml.HookBeforeBaseShapeInheritUnionSource,
	raml.HookBeforeBaseShapeInheritUnionTarget, raml.HookBeforeRAMLMakeConcreteShapeYAML, raml.HookBeforeRAMLMakeNewShapeYAML,
	raml.HookBeforeFindAndMarkRecursion, raml.HookBeforeUnwrapShape, raml.HookBeforeValidateTypes, raml.HookBeforeValidateLibrary,
	raml.HookBeforeValidateDataType, raml.HookBeforeValidateFragments, raml.HookBeforeValidateDomainExtensions,
	raml.HookBeforeValidateShapes, raml.HookBeforeValidateObjectShape, raml.HookBeforeValidateShapeCommons,
	raml.HookBeforeValidateExamples, raml.HookBeforeValidateShapeFacets,
}

// hookParams gives the types of the parameters with which each hook is called: what a hook works on.
var hookParams = map[raml.HookKey]string{
	raml.HookBeforeParseDataType:               "string",
	raml.HookBeforeBaseShapeInherit:            "shape shape",
	raml.HookBeforeBaseShapeInheritUnionSource: "shape union",
	raml.HookBeforeBaseShapeInheritUnionTarget: "shape union",
	raml.HookBeforeRAMLMakeConcreteShapeYAML:   "shape string nodes",
	raml.HookBeforeRAMLMakeNewShapeYAML:        "node",
	raml.HookBeforeFindAndMarkRecursion:        "shape",
	raml.HookBeforeUnwrapShape:                 "shape",
	raml.HookBeforeValidateTypes:               "other",
	raml.HookBeforeValidateLibrary:             "library",
	raml.HookBeforeValidateDataType:            "datatype",
	raml.HookBeforeValidateFragments:           "",
	raml.HookBeforeValidateDomainExtensions:    "",
	raml.HookBeforeValidateShapes:              "",
	raml.HookBeforeValidateObjectShape:         "object",
	raml.HookBeforeValidateShapeCommons:        "shape",
	raml.HookBeforeValidateExamples:            "shape",
	raml.HookBeforeValidateShapeFacets:         "shape",
}

// badParams describes what is wrong with the parameters of a hook call, if anything.
func badParams(k raml.HookKey, params []any) string {
	var got []string
	for _, p := range params {
		name, null := "other", false
		switch x := p.(type) {
		case *raml.BaseShape:
			name, null = "shape", x == nil
		case *raml.UnionShape:
			name, null = "union", x == nil
		case *raml.ObjectShape:
			name, null = "object", x == nil
		case *raml.Library:
			name, null = "library", x == nil
		case *raml.DataType:
			name, null = "datatype", x == nil
		case *yaml.Node:
			name = "node"
		case []*yaml.Node:
			name = "nodes"
		case string:
			name = "string"
		}
		if null {
			name = "nil " + name
		}
		got = append(got, name)
	}
	// what follows the expected parameters is not looked at
	want := strings.Fields(hookParams[k])
	if len(got) < len(want) || strings.Join(got[:len(want)], " ") != strings.Join(want, " ") {
		return fmt.Sprintf("hook %s is called with (%s), expected (%s)", k, strings.Join(got, ", "), strings.Join(want, ", "))
	}
	return ""
}
