package explain

import (
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
)

// The data form of a step is what initMap gives, and it is created from its data form by initialize. Data that has nothing
// but the name of the type would be the type, hence an empty form gets an empty list of texts.

func dataOf(v dgo.Value) dgo.Value {
	m := v.(explainNode).initMap()
	if m.Len() == 0 {
		m.Put(`texts`, vf.Values())
	}
	return m
}

//@ contract var explainNodeRType
//@ property C18
func specExplainNodeRType() reflect.Type { return reflect.TypeOf((*explainNode)(nil)).Elem() }

//@ contract var explainDataProviderType
//@ property C18
func specTypeOfDataProvider() dgo.NamedType {
	return tf.NewNamed(`hiera.explainDataProvider`, func(v dgo.Value) dgo.Value {
		n := &explainDataProvider{}
		n.initialize(v.(dgo.Map))
		return n
	}, dataOf, reflect.TypeOf(&explainDataProvider{}), explainNodeRType, nil)
}

//@ contract var explainInterpolateType
//@ property C18
func specTypeOfInterpolate() dgo.NamedType {
	return tf.NewNamed(`hiera.explainInterpolate`, func(v dgo.Value) dgo.Value {
		n := &explainInterpolate{}
		n.initialize(v.(dgo.Map))
		return n
	}, dataOf, reflect.TypeOf(&explainInterpolate{}), explainNodeRType, nil)
}

//@ contract var explainInvalidKeyType
//@ property C18
func specTypeOfInvalidKey() dgo.NamedType {
	return tf.NewNamed(`hiera.explainInvalidKey`, func(v dgo.Value) dgo.Value {
		n := &explainInvalidKey{}
		n.initialize(v.(dgo.Map))
		return n
	}, dataOf, reflect.TypeOf(&explainInvalidKey{}), explainNodeRType, nil)
}

//@ contract var explainKeySegmentType
//@ property C18
func specTypeOfKeySegment() dgo.NamedType {
	return tf.NewNamed(`hiera.explainKeySegment`, func(v dgo.Value) dgo.Value {
		n := &explainKeySegment{}
		n.initialize(v.(dgo.Map))
		return n
	}, dataOf, reflect.TypeOf(&explainKeySegment{}), explainNodeRType, nil)
}

//@ contract var explainLocationType
//@ property C18
func specTypeOfLocation() dgo.NamedType {
	return tf.NewNamed(`hiera.explainLocation`, func(v dgo.Value) dgo.Value {
		n := &explainLocation{}
		n.initialize(v.(dgo.Map))
		return n
	}, dataOf, reflect.TypeOf(&explainLocation{}), explainNodeRType, nil)
}

//@ contract var explainLookupType
//@ property C18
func specTypeOfLookup() dgo.NamedType {
	return tf.NewNamed(`hiera.explainLookup`, func(v dgo.Value) dgo.Value {
		n := &explainLookup{}
		n.initialize(v.(dgo.Map))
		return n
	}, dataOf, reflect.TypeOf(&explainLookup{}), explainNodeRType, nil)
}

//@ contract var explainMergeType
//@ property C18
func specTypeOfMerge() dgo.NamedType {
	return tf.NewNamed(`hiera.explainMerge`, func(v dgo.Value) dgo.Value {
		n := &explainMerge{}
		n.initialize(v.(dgo.Map))
		return n
	}, dataOf, reflect.TypeOf(&explainMerge{}), explainNodeRType, nil)
}

//@ contract var explainMergeSourceType
//@ property C18
func specTypeOfMergeSource() dgo.NamedType {
	return tf.NewNamed(`hiera.explainMergeSource`, func(v dgo.Value) dgo.Value {
		n := &explainMergeSource{}
		n.initialize(v.(dgo.Map))
		return n
	}, dataOf, reflect.TypeOf(&explainMergeSource{}), explainNodeRType, nil)
}

//@ contract var explainModuleType
//@ property C18
func specTypeOfModule() dgo.NamedType {
	return tf.NewNamed(`hiera.explainModule`, func(v dgo.Value) dgo.Value {
		n := &explainModule{}
		n.initialize(v.(dgo.Map))
		return n
	}, dataOf, reflect.TypeOf(&explainModule{}), explainNodeRType, nil)
}

//@ contract var explainSubLookupType
//@ property C18
func specTypeOfSubLookup() dgo.NamedType {
	return tf.NewNamed(`hiera.explainSubLookup`, func(v dgo.Value) dgo.Value {
		n := &explainSubLookup{}
		n.initialize(v.(dgo.Map))
		return n
	}, dataOf, reflect.TypeOf(&explainSubLookup{}), explainNodeRType, nil)
}

//@ contract var explainerType
//@ property C18
func specTypeOfExplainer() dgo.NamedType {
	return tf.NewNamed(`hiera.explainer`, func(v dgo.Value) dgo.Value {
		n := &explainer{}
		n.initialize(v.(dgo.Map))
		return n
	}, dataOf, reflect.TypeOf(&explainer{}), reflect.TypeOf((*api.Explainer)(nil)).Elem(), nil)
}
