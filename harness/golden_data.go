package zzverif

// golden is what is written by: VERIF_GOLDEN=FILE tools/h.sh TestC17
var golden = map[string]string{
	"merge and options deep map":   "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"map\"\n  Using merge options from CLI option\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"map\" value: {\n            \"k\": \"v\",\n            \"l\": {\n              \"e0\",\n              {\n                \"z\": 3\n              }\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          Found key: \"map\" value: {\n            \"o\": nil\n          }\n        Merged result: {\n          \"k\": \"v\",\n          \"l\": {\n            \"e0\",\n            {\n              \"z\": 3\n            }\n          },\n          \"o\": nil\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"map\"\n          key function asked for map\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"map\"\n          key function asked for map\n    data_dig function 'dg'\n      No such key: \"map\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"map\"\n    Merged result: {\n      \"k\": \"v\",\n      \"l\": {\n        \"e0\",\n        {\n          \"z\": 3\n        }\n      },\n      \"o\": nil\n    }\n=> {\"k\":\"v\",\"l\":{\"e0\",{\"z\":3}},\"o\":nil}",
	"merge and options first map":  "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"map\"\n  Using merge options from CLI option\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"map\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      Found key: \"map\" value: {\n        \"k\": \"v\",\n        \"l\": {\n          \"e0\",\n          {\n            \"z\": 3\n          }\n        }\n      }\n=> {\"k\":\"v\",\"l\":{\"e0\",{\"z\":3}}}",
	"merge and options hash map":   "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"map\"\n  Using merge options from CLI option\n  Merge strategy \"hash merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"map\" value: {\n            \"k\": \"v\",\n            \"l\": {\n              \"e0\",\n              {\n                \"z\": 3\n              }\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          Found key: \"map\" value: {\n            \"o\": nil\n          }\n        Merged result: {\n          \"o\": nil,\n          \"k\": \"v\",\n          \"l\": {\n            \"e0\",\n            {\n              \"z\": 3\n            }\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n    lookup_key function 'fn'\n      Merge strategy \"hash merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"map\"\n          key function asked for map\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"map\"\n          key function asked for map\n    data_dig function 'dg'\n      No such key: \"map\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"map\"\n    Merged result: {\n      \"o\": nil,\n      \"k\": \"v\",\n      \"l\": {\n        \"e0\",\n        {\n          \"z\": 3\n        }\n      }\n    }\n=> {\"o\":nil,\"k\":\"v\",\"l\":{\"e0\",{\"z\":3}}}",
	"merge and options unique map": "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"map\"\n  Using merge options from CLI option\n  Merge strategy \"unique merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"unique merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"map\" value: {\n            \"k\": \"v\",\n            \"l\": {\n              \"e0\",\n              {\n                \"z\": 3\n              }\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          Found key: \"map\" value: {\n            \"o\": nil\n          }\n        Merged result: {\n          {\n            \"k\": \"v\",\n            \"l\": {\n              \"e0\",\n              {\n                \"z\": 3\n              }\n            }\n          },\n          {\n            \"o\": nil\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"unique merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"unique merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n    lookup_key function 'fn'\n      Merge strategy \"unique merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"map\"\n          key function asked for map\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"map\"\n          key function asked for map\n    data_dig function 'dg'\n      No such key: \"map\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"map\"\n    Merged result: {\n      {\n        \"k\": \"v\",\n        \"l\": {\n          \"e0\",\n          {\n            \"z\": 3\n          }\n        }\n      },\n      {\n        \"o\": nil\n      }\n    }\n=> {{\"k\":\"v\",\"l\":{\"e0\",{\"z\":3}}},{\"o\":nil}}",
	"merge deep deep":              "Searching for \"deep\"\n  Using merge options from CLI option\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"deep\" value: {\n          \"p\": {\n            \"n\": 1\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"deep\" value: {\n            \"p\": {\n              \"m\": 2\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"deep\"\n        Merged result: {\n          \"p\": {\n            \"m\": 2\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          Found key: \"deep\" value: {\n            \"q\": true\n          }\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"deep\"\n        Merged result: {\n          \"q\": true\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"deep\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"deep\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"deep\"\n          key function asked for deep\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"deep\"\n          key function asked for deep\n    data_dig function 'dg'\n      No such key: \"deep\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"deep\"\n    Merged result: {\n      \"p\": {\n        \"n\": 1,\n        \"m\": 2\n      },\n      \"q\": true\n    }\n=> {\"p\":{\"n\":1,\"m\":2},\"q\":true}",
	"merge first glob":             "Searching for \"glob\"\n  Using merge options from CLI option\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"glob\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"glob\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"glob\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      Found key: \"glob\" value: 1\n=> 1",
	"merge hash map":               "Searching for \"map\"\n  Using merge options from CLI option\n  Merge strategy \"hash merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"map\" value: {\n            \"k\": \"v\",\n            \"l\": {\n              \"e0\",\n              {\n                \"z\": 3\n              }\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          Found key: \"map\" value: {\n            \"o\": nil\n          }\n        Merged result: {\n          \"o\": nil,\n          \"k\": \"v\",\n          \"l\": {\n            \"e0\",\n            {\n              \"z\": 3\n            }\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n    lookup_key function 'fn'\n      Merge strategy \"hash merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"map\"\n          key function asked for map\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"map\"\n          key function asked for map\n    data_dig function 'dg'\n      No such key: \"map\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"map\"\n    Merged result: {\n      \"o\": nil,\n      \"k\": \"v\",\n      \"l\": {\n        \"e0\",\n        {\n          \"z\": 3\n        }\n      }\n    }\n=> {\"o\":nil,\"k\":\"v\",\"l\":{\"e0\",{\"z\":3}}}",
	"merge unique list":            "Searching for \"list\"\n  Using merge options from CLI option\n  Merge strategy \"unique merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"list\" value: {\n          1,\n          2\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"unique merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"list\" value: {\n            2,\n            3\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"list\"\n        Merged result: {\n          2,\n          3\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"unique merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"list\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"list\"\n    data_hash function 'yaml_data'\n      Merge strategy \"unique merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          Found key: \"list\" value: {\n            4\n          }\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"list\"\n        Merged result: {\n          4\n        }\n    lookup_key function 'fn'\n      Merge strategy \"unique merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"list\"\n          key function asked for list\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"list\"\n          key function asked for list\n    data_dig function 'dg'\n      No such key: \"list\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"list\"\n    Merged result: {\n      1,\n      2,\n      3,\n      4\n    }\n=> {1,2,3,4}",
	"module a":                     "\n=> not found",
	"module deep":                  "\n=> not found",
	"module missing":               "\n=> not found",
	"module mod::a":                "Searching for \"lookup_options\"\n  data_hash function 'yaml_data'\n    Path \"DIR/modules/mod/data/m.yaml\"\n      Original path: \"m.yaml\"\n      Found key: \"lookup_options\" value: {\n        \"mod::a\": \"hash\"\n      }\nSearching for \"mod::a\"\n  data_hash function 'yaml_data'\n    Path \"DIR/modules/mod/data/m.yaml\"\n      Original path: \"m.yaml\"\n      Found key: \"mod::a\" value: {\n        \"x\": 1\n      }\n=> {\"x\":1}",
	"module mod::a.x":              "Searching for \"lookup_options\"\n  data_hash function 'yaml_data'\n    Path \"DIR/modules/mod/data/m.yaml\"\n      Original path: \"m.yaml\"\n      Found key: \"lookup_options\" value: {\n        \"mod::a\": \"hash\"\n      }\nSearching for \"mod::a\"\n  data_hash function 'yaml_data'\n    Path \"DIR/modules/mod/data/m.yaml\"\n      Original path: \"m.yaml\"\n      Found key: \"mod::a\" value: {\n        \"x\": 1\n      }\nSub key: \"x\"\n  Found key: \"x\" value: 1\n=> 1",
	"module nomod::a":              "\nModule \"nomod\" not found\n=> not found",
	"module sec":                   "\n=> not found",
	"mux a":                        "Searching for \"a\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Found key: \"a\" value: 1\n=> 1",
	"mux deep":                     "Searching for \"deep\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Found key: \"deep\" value: {\n        \"p\": {\n          \"n\": 1\n        }\n      }\n=> {\"p\":{\"n\":1}}",
	"mux missing":                  "Searching for \"missing\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"missing\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"missing\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"missing\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"missing\"\n    Path \"DIR/data/g/2.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"missing\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/m_one.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"missing\"\n    Path \"DIR/data/m_none.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      path not found\n    Path \"DIR/data/m_two.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"missing\"\n  lookup_key function 'fn'\n    URI \"http://h/1\"\n      Original uri: \"http://h/1\"\n      No such key: \"missing\"\n      key function asked for missing\n    URI \"http://h/2\"\n      Original uri: \"http://h/2\"\n      No such key: \"missing\"\n      key function asked for missing\n  data_dig function 'dg'\n    No such key: \"missing\"\n  data_hash function 'yaml_data'\n  data_hash function 'dh'\n    No such key: \"missing\"\n=> not found",
	"mux mod::a":                   "Searching for \"mod::a\"\n  data_hash function 'yaml_data'\n    Path \"DIR/modules/mod/data/m.yaml\"\n      Original path: \"m.yaml\"\n      Found key: \"mod::a\" value: {\n        \"x\": 1\n      }\n=> {\"x\":1}",
	"mux mod::a.x":                 "Searching for \"mod::a\"\n  data_hash function 'yaml_data'\n    Path \"DIR/modules/mod/data/m.yaml\"\n      Original path: \"m.yaml\"\n      Found key: \"mod::a\" value: {\n        \"x\": 1\n      }\nSub key: \"x\"\n  Found key: \"x\" value: 1\n=> 1",
	"mux nomod::a":                 "Searching for \"nomod::a\"\n  Module \"nomod\" not found\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"nomod::a\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"nomod::a\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"nomod::a\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"nomod::a\"\n    Path \"DIR/data/g/2.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"nomod::a\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/m_one.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"nomod::a\"\n    Path \"DIR/data/m_none.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      path not found\n    Path \"DIR/data/m_two.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"nomod::a\"\n  lookup_key function 'fn'\n    URI \"http://h/1\"\n      Original uri: \"http://h/1\"\n      No such key: \"nomod::a\"\n      key function asked for nomod::a\n    URI \"http://h/2\"\n      Original uri: \"http://h/2\"\n      No such key: \"nomod::a\"\n      key function asked for nomod::a\n  data_dig function 'dg'\n    No such key: \"nomod::a\"\n  data_hash function 'yaml_data'\n  data_hash function 'dh'\n    No such key: \"nomod::a\"\n=> not found",
	"mux only options a":           "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> 1",
	"mux only options deep":        "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> {\"p\":{\"n\":1}}",
	"mux only options missing":     "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> not found",
	"mux only options mod::a":      "\nMerge strategy \"deep merge strategy\"\n  Searching for \"lookup_options\"\n    data_hash function 'yaml_data'\n      Path \"DIR/modules/mod/data/m.yaml\"\n        Original path: \"m.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"mod::a\": \"hash\"\n        }\n  Searching for \"lookup_options\"\n    Merge strategy \"deep merge strategy\"\n      data_hash function 'yaml_data'\n        Path \"DIR/data/nodes/n.yaml\"\n          Original path: \"nodes/%{x}.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"deep\": \"deep\",\n            \"list\": {\n              \"merge\": \"unique\"\n            },\n            \"sec\": {\n              \"convert_to\": \"sensitive\"\n            },\n            \"num\": {\n              \"convert_to\": \"string\"\n            }\n          }\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            Found key: \"lookup_options\" value: {\n              \"map\": {\n                \"merge\": \"hash\"\n              }\n            }\n          Path \"DIR/data/missing.yaml\"\n            Original path: \"missing.yaml\"\n            path not found\n          Path \"DIR/data/b_n.yaml\"\n            Original path: \"b_%{x}.yaml\"\n            No such key: \"lookup_options\"\n          Merged result: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/g/1.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"lookup_options\"\n          Path \"DIR/data/g/2.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"lookup_options\"\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/m_one.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"lookup_options\"\n          Path \"DIR/data/m_none.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            path not found\n          Path \"DIR/data/m_two.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"lookup_options\"\n      lookup_key function 'fn'\n        Merge strategy \"deep merge strategy\"\n          URI \"http://h/1\"\n            Original uri: \"http://h/1\"\n            No such key: \"lookup_options\"\n            key function asked for lookup_options\n          URI \"http://h/2\"\n            Original uri: \"http://h/2\"\n            No such key: \"lookup_options\"\n            key function asked for lookup_options\n      data_dig function 'dg'\n        No such key: \"lookup_options\"\n      data_hash function 'yaml_data'\n      data_hash function 'dh'\n        No such key: \"lookup_options\"\n      Merged result: {\n        \"deep\": \"deep\",\n        \"list\": {\n          \"merge\": \"unique\"\n        },\n        \"sec\": {\n          \"convert_to\": \"sensitive\"\n        },\n        \"num\": {\n          \"convert_to\": \"string\"\n        },\n        \"map\": {\n          \"merge\": \"hash\"\n        }\n      }\n=> {\"x\":1}",
	"mux only options mod::a.x":    "\nMerge strategy \"deep merge strategy\"\n  Searching for \"lookup_options\"\n    data_hash function 'yaml_data'\n      Path \"DIR/modules/mod/data/m.yaml\"\n        Original path: \"m.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"mod::a\": \"hash\"\n        }\n  Searching for \"lookup_options\"\n    Merge strategy \"deep merge strategy\"\n      data_hash function 'yaml_data'\n        Path \"DIR/data/nodes/n.yaml\"\n          Original path: \"nodes/%{x}.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"deep\": \"deep\",\n            \"list\": {\n              \"merge\": \"unique\"\n            },\n            \"sec\": {\n              \"convert_to\": \"sensitive\"\n            },\n            \"num\": {\n              \"convert_to\": \"string\"\n            }\n          }\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            Found key: \"lookup_options\" value: {\n              \"map\": {\n                \"merge\": \"hash\"\n              }\n            }\n          Path \"DIR/data/missing.yaml\"\n            Original path: \"missing.yaml\"\n            path not found\n          Path \"DIR/data/b_n.yaml\"\n            Original path: \"b_%{x}.yaml\"\n            No such key: \"lookup_options\"\n          Merged result: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/g/1.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"lookup_options\"\n          Path \"DIR/data/g/2.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"lookup_options\"\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/m_one.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"lookup_options\"\n          Path \"DIR/data/m_none.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            path not found\n          Path \"DIR/data/m_two.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"lookup_options\"\n      lookup_key function 'fn'\n        Merge strategy \"deep merge strategy\"\n          URI \"http://h/1\"\n            Original uri: \"http://h/1\"\n            No such key: \"lookup_options\"\n            key function asked for lookup_options\n          URI \"http://h/2\"\n            Original uri: \"http://h/2\"\n            No such key: \"lookup_options\"\n            key function asked for lookup_options\n      data_dig function 'dg'\n        No such key: \"lookup_options\"\n      data_hash function 'yaml_data'\n      data_hash function 'dh'\n        No such key: \"lookup_options\"\n      Merged result: {\n        \"deep\": \"deep\",\n        \"list\": {\n          \"merge\": \"unique\"\n        },\n        \"sec\": {\n          \"convert_to\": \"sensitive\"\n        },\n        \"num\": {\n          \"convert_to\": \"string\"\n        },\n        \"map\": {\n          \"merge\": \"hash\"\n        }\n      }\n=> 1",
	"mux only options nomod::a":    "\nMerge strategy \"deep merge strategy\"\n  Module \"nomod\" not found\n  Searching for \"lookup_options\"\n    Merge strategy \"deep merge strategy\"\n      data_hash function 'yaml_data'\n        Path \"DIR/data/nodes/n.yaml\"\n          Original path: \"nodes/%{x}.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"deep\": \"deep\",\n            \"list\": {\n              \"merge\": \"unique\"\n            },\n            \"sec\": {\n              \"convert_to\": \"sensitive\"\n            },\n            \"num\": {\n              \"convert_to\": \"string\"\n            }\n          }\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            Found key: \"lookup_options\" value: {\n              \"map\": {\n                \"merge\": \"hash\"\n              }\n            }\n          Path \"DIR/data/missing.yaml\"\n            Original path: \"missing.yaml\"\n            path not found\n          Path \"DIR/data/b_n.yaml\"\n            Original path: \"b_%{x}.yaml\"\n            No such key: \"lookup_options\"\n          Merged result: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/g/1.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"lookup_options\"\n          Path \"DIR/data/g/2.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"lookup_options\"\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/m_one.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"lookup_options\"\n          Path \"DIR/data/m_none.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            path not found\n          Path \"DIR/data/m_two.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"lookup_options\"\n      lookup_key function 'fn'\n        Merge strategy \"deep merge strategy\"\n          URI \"http://h/1\"\n            Original uri: \"http://h/1\"\n            No such key: \"lookup_options\"\n            key function asked for lookup_options\n          URI \"http://h/2\"\n            Original uri: \"http://h/2\"\n            No such key: \"lookup_options\"\n            key function asked for lookup_options\n      data_dig function 'dg'\n        No such key: \"lookup_options\"\n      data_hash function 'yaml_data'\n      data_hash function 'dh'\n        No such key: \"lookup_options\"\n      Merged result: {\n        \"deep\": \"deep\",\n        \"list\": {\n          \"merge\": \"unique\"\n        },\n        \"sec\": {\n          \"convert_to\": \"sensitive\"\n        },\n        \"num\": {\n          \"convert_to\": \"string\"\n        },\n        \"map\": {\n          \"merge\": \"hash\"\n        }\n      }\n=> not found",
	"mux only options sec":         "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> sensitive [value redacted]",
	"mux sec":                      "Searching for \"sec\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Found key: \"sec\" value: \"hidden\"\n=> sensitive [value redacted]",
	"mux with options a":           "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"a\"\n  Using merge options from CLI option\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"a\" value: 1\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"a\" value: 2\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"a\"\n        Merged result: 2\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"a\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"a\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"a\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"a\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"a\"\n          key function asked for a\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"a\"\n          key function asked for a\n    data_dig function 'dg'\n      No such key: \"a\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"a\"\n    Merged result: 1\n=> 1",
	"mux with options deep":        "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"deep\"\n  Using merge options from CLI option\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"deep\" value: {\n          \"p\": {\n            \"n\": 1\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"deep\" value: {\n            \"p\": {\n              \"m\": 2\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"deep\"\n        Merged result: {\n          \"p\": {\n            \"m\": 2\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          Found key: \"deep\" value: {\n            \"q\": true\n          }\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"deep\"\n        Merged result: {\n          \"q\": true\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"deep\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"deep\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"deep\"\n          key function asked for deep\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"deep\"\n          key function asked for deep\n    data_dig function 'dg'\n      No such key: \"deep\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"deep\"\n    Merged result: {\n      \"p\": {\n        \"n\": 1,\n        \"m\": 2\n      },\n      \"q\": true\n    }\n=> {\"p\":{\"n\":1,\"m\":2},\"q\":true}",
	"mux with options missing":     "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"missing\"\n  Using merge options from CLI option\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        No such key: \"missing\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          No such key: \"missing\"\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"missing\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"missing\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"missing\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"missing\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"missing\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"missing\"\n          key function asked for missing\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"missing\"\n          key function asked for missing\n    data_dig function 'dg'\n      No such key: \"missing\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"missing\"\n=> not found",
	"mux with options mod::a":      "\nMerge strategy \"deep merge strategy\"\n  Searching for \"lookup_options\"\n    data_hash function 'yaml_data'\n      Path \"DIR/modules/mod/data/m.yaml\"\n        Original path: \"m.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"mod::a\": \"hash\"\n        }\n  Searching for \"lookup_options\"\n    Merge strategy \"deep merge strategy\"\n      data_hash function 'yaml_data'\n        Path \"DIR/data/nodes/n.yaml\"\n          Original path: \"nodes/%{x}.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"deep\": \"deep\",\n            \"list\": {\n              \"merge\": \"unique\"\n            },\n            \"sec\": {\n              \"convert_to\": \"sensitive\"\n            },\n            \"num\": {\n              \"convert_to\": \"string\"\n            }\n          }\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            Found key: \"lookup_options\" value: {\n              \"map\": {\n                \"merge\": \"hash\"\n              }\n            }\n          Path \"DIR/data/missing.yaml\"\n            Original path: \"missing.yaml\"\n            path not found\n          Path \"DIR/data/b_n.yaml\"\n            Original path: \"b_%{x}.yaml\"\n            No such key: \"lookup_options\"\n          Merged result: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/g/1.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"lookup_options\"\n          Path \"DIR/data/g/2.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"lookup_options\"\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/m_one.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"lookup_options\"\n          Path \"DIR/data/m_none.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            path not found\n          Path \"DIR/data/m_two.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"lookup_options\"\n      lookup_key function 'fn'\n        Merge strategy \"deep merge strategy\"\n          URI \"http://h/1\"\n            Original uri: \"http://h/1\"\n            No such key: \"lookup_options\"\n            key function asked for lookup_options\n          URI \"http://h/2\"\n            Original uri: \"http://h/2\"\n            No such key: \"lookup_options\"\n            key function asked for lookup_options\n      data_dig function 'dg'\n        No such key: \"lookup_options\"\n      data_hash function 'yaml_data'\n      data_hash function 'dh'\n        No such key: \"lookup_options\"\n      Merged result: {\n        \"deep\": \"deep\",\n        \"list\": {\n          \"merge\": \"unique\"\n        },\n        \"sec\": {\n          \"convert_to\": \"sensitive\"\n        },\n        \"num\": {\n          \"convert_to\": \"string\"\n        },\n        \"map\": {\n          \"merge\": \"hash\"\n        }\n      }\nSearching for \"mod::a\"\n  Using merge options from CLI option\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/modules/mod/data/m.yaml\"\n        Original path: \"m.yaml\"\n        Found key: \"mod::a\" value: {\n          \"x\": 1\n        }\n    Merge strategy \"deep merge strategy\"\n      data_hash function 'yaml_data'\n        Path \"DIR/data/nodes/n.yaml\"\n          Original path: \"nodes/%{x}.yaml\"\n          No such key: \"mod::a\"\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            No such key: \"mod::a\"\n          Path \"DIR/data/missing.yaml\"\n            Original path: \"missing.yaml\"\n            path not found\n          Path \"DIR/data/b_n.yaml\"\n            Original path: \"b_%{x}.yaml\"\n            No such key: \"mod::a\"\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/g/1.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"mod::a\"\n          Path \"DIR/data/g/2.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"mod::a\"\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/m_one.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"mod::a\"\n          Path \"DIR/data/m_none.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            path not found\n          Path \"DIR/data/m_two.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"mod::a\"\n      lookup_key function 'fn'\n        Merge strategy \"deep merge strategy\"\n          URI \"http://h/1\"\n            Original uri: \"http://h/1\"\n            No such key: \"mod::a\"\n            key function asked for mod::a\n          URI \"http://h/2\"\n            Original uri: \"http://h/2\"\n            No such key: \"mod::a\"\n            key function asked for mod::a\n      data_dig function 'dg'\n        No such key: \"mod::a\"\n      data_hash function 'yaml_data'\n      data_hash function 'dh'\n        No such key: \"mod::a\"\n    Merged result: {\n      \"x\": 1\n    }\n=> {\"x\":1}",
	"mux with options mod::a.x":    "\nMerge strategy \"deep merge strategy\"\n  Searching for \"lookup_options\"\n    data_hash function 'yaml_data'\n      Path \"DIR/modules/mod/data/m.yaml\"\n        Original path: \"m.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"mod::a\": \"hash\"\n        }\n  Searching for \"lookup_options\"\n    Merge strategy \"deep merge strategy\"\n      data_hash function 'yaml_data'\n        Path \"DIR/data/nodes/n.yaml\"\n          Original path: \"nodes/%{x}.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"deep\": \"deep\",\n            \"list\": {\n              \"merge\": \"unique\"\n            },\n            \"sec\": {\n              \"convert_to\": \"sensitive\"\n            },\n            \"num\": {\n              \"convert_to\": \"string\"\n            }\n          }\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            Found key: \"lookup_options\" value: {\n              \"map\": {\n                \"merge\": \"hash\"\n              }\n            }\n          Path \"DIR/data/missing.yaml\"\n            Original path: \"missing.yaml\"\n            path not found\n          Path \"DIR/data/b_n.yaml\"\n            Original path: \"b_%{x}.yaml\"\n            No such key: \"lookup_options\"\n          Merged result: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/g/1.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"lookup_options\"\n          Path \"DIR/data/g/2.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"lookup_options\"\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/m_one.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"lookup_options\"\n          Path \"DIR/data/m_none.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            path not found\n          Path \"DIR/data/m_two.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"lookup_options\"\n      lookup_key function 'fn'\n        Merge strategy \"deep merge strategy\"\n          URI \"http://h/1\"\n            Original uri: \"http://h/1\"\n            No such key: \"lookup_options\"\n            key function asked for lookup_options\n          URI \"http://h/2\"\n            Original uri: \"http://h/2\"\n            No such key: \"lookup_options\"\n            key function asked for lookup_options\n      data_dig function 'dg'\n        No such key: \"lookup_options\"\n      data_hash function 'yaml_data'\n      data_hash function 'dh'\n        No such key: \"lookup_options\"\n      Merged result: {\n        \"deep\": \"deep\",\n        \"list\": {\n          \"merge\": \"unique\"\n        },\n        \"sec\": {\n          \"convert_to\": \"sensitive\"\n        },\n        \"num\": {\n          \"convert_to\": \"string\"\n        },\n        \"map\": {\n          \"merge\": \"hash\"\n        }\n      }\nSearching for \"mod::a\"\n  Using merge options from CLI option\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/modules/mod/data/m.yaml\"\n        Original path: \"m.yaml\"\n        Found key: \"mod::a\" value: {\n          \"x\": 1\n        }\n    Merge strategy \"deep merge strategy\"\n      data_hash function 'yaml_data'\n        Path \"DIR/data/nodes/n.yaml\"\n          Original path: \"nodes/%{x}.yaml\"\n          No such key: \"mod::a\"\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            No such key: \"mod::a\"\n          Path \"DIR/data/missing.yaml\"\n            Original path: \"missing.yaml\"\n            path not found\n          Path \"DIR/data/b_n.yaml\"\n            Original path: \"b_%{x}.yaml\"\n            No such key: \"mod::a\"\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/g/1.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"mod::a\"\n          Path \"DIR/data/g/2.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"mod::a\"\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/m_one.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"mod::a\"\n          Path \"DIR/data/m_none.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            path not found\n          Path \"DIR/data/m_two.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"mod::a\"\n      lookup_key function 'fn'\n        Merge strategy \"deep merge strategy\"\n          URI \"http://h/1\"\n            Original uri: \"http://h/1\"\n            No such key: \"mod::a\"\n            key function asked for mod::a\n          URI \"http://h/2\"\n            Original uri: \"http://h/2\"\n            No such key: \"mod::a\"\n            key function asked for mod::a\n      data_dig function 'dg'\n        No such key: \"mod::a\"\n      data_hash function 'yaml_data'\n      data_hash function 'dh'\n        No such key: \"mod::a\"\n    Merged result: {\n      \"x\": 1\n    }\nSub key: \"x\"\n  Found key: \"x\" value: 1\n=> 1",
	"mux with options nomod::a":    "\nMerge strategy \"deep merge strategy\"\n  Module \"nomod\" not found\n  Searching for \"lookup_options\"\n    Merge strategy \"deep merge strategy\"\n      data_hash function 'yaml_data'\n        Path \"DIR/data/nodes/n.yaml\"\n          Original path: \"nodes/%{x}.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"deep\": \"deep\",\n            \"list\": {\n              \"merge\": \"unique\"\n            },\n            \"sec\": {\n              \"convert_to\": \"sensitive\"\n            },\n            \"num\": {\n              \"convert_to\": \"string\"\n            }\n          }\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            Found key: \"lookup_options\" value: {\n              \"map\": {\n                \"merge\": \"hash\"\n              }\n            }\n          Path \"DIR/data/missing.yaml\"\n            Original path: \"missing.yaml\"\n            path not found\n          Path \"DIR/data/b_n.yaml\"\n            Original path: \"b_%{x}.yaml\"\n            No such key: \"lookup_options\"\n          Merged result: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/g/1.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"lookup_options\"\n          Path \"DIR/data/g/2.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"lookup_options\"\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/m_one.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"lookup_options\"\n          Path \"DIR/data/m_none.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            path not found\n          Path \"DIR/data/m_two.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"lookup_options\"\n      lookup_key function 'fn'\n        Merge strategy \"deep merge strategy\"\n          URI \"http://h/1\"\n            Original uri: \"http://h/1\"\n            No such key: \"lookup_options\"\n            key function asked for lookup_options\n          URI \"http://h/2\"\n            Original uri: \"http://h/2\"\n            No such key: \"lookup_options\"\n            key function asked for lookup_options\n      data_dig function 'dg'\n        No such key: \"lookup_options\"\n      data_hash function 'yaml_data'\n      data_hash function 'dh'\n        No such key: \"lookup_options\"\n      Merged result: {\n        \"deep\": \"deep\",\n        \"list\": {\n          \"merge\": \"unique\"\n        },\n        \"sec\": {\n          \"convert_to\": \"sensitive\"\n        },\n        \"num\": {\n          \"convert_to\": \"string\"\n        },\n        \"map\": {\n          \"merge\": \"hash\"\n        }\n      }\nSearching for \"nomod::a\"\n  Using merge options from CLI option\n  Merge strategy \"deep merge strategy\"\n    Module \"nomod\" not found\n    Merge strategy \"deep merge strategy\"\n      data_hash function 'yaml_data'\n        Path \"DIR/data/nodes/n.yaml\"\n          Original path: \"nodes/%{x}.yaml\"\n          No such key: \"nomod::a\"\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            No such key: \"nomod::a\"\n          Path \"DIR/data/missing.yaml\"\n            Original path: \"missing.yaml\"\n            path not found\n          Path \"DIR/data/b_n.yaml\"\n            Original path: \"b_%{x}.yaml\"\n            No such key: \"nomod::a\"\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/g/1.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"nomod::a\"\n          Path \"DIR/data/g/2.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"nomod::a\"\n      data_hash function 'yaml_data'\n        Merge strategy \"deep merge strategy\"\n          Path \"DIR/data/m_one.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"nomod::a\"\n          Path \"DIR/data/m_none.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            path not found\n          Path \"DIR/data/m_two.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"nomod::a\"\n      lookup_key function 'fn'\n        Merge strategy \"deep merge strategy\"\n          URI \"http://h/1\"\n            Original uri: \"http://h/1\"\n            No such key: \"nomod::a\"\n            key function asked for nomod::a\n          URI \"http://h/2\"\n            Original uri: \"http://h/2\"\n            No such key: \"nomod::a\"\n            key function asked for nomod::a\n      data_dig function 'dg'\n        No such key: \"nomod::a\"\n      data_hash function 'yaml_data'\n      data_hash function 'dh'\n        No such key: \"nomod::a\"\n=> not found",
	"mux with options sec":         "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"sec\"\n  Using merge options from CLI option\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"sec\" value: \"hidden\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          No such key: \"sec\"\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"sec\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"sec\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"sec\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"sec\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"sec\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"sec\"\n          key function asked for sec\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"sec\"\n          key function asked for sec\n    data_dig function 'dg'\n      No such key: \"sec\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"sec\"\n    Merged result: \"hidden\"\n=> sensitive [value redacted]",
	"only options a":               "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> 1",
	"only options al":              "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> {\"k\":\"v\",\"l\":{\"e0\",{\"z\":3}}}",
	"only options al.k":            "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> v",
	"only options b":               "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> from a",
	"only options c":               "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> from b",
	"only options d":               "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> not found",
	"only options deep":            "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> {\"p\":{\"n\":1}}",
	"only options dig":             "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> dug {\"dig\"}",
	"only options f":               "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> from fn",
	"only options glob":            "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> 1",
	"only options hash":            "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> from dh",
	"only options inv":             "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> ",
	"only options list":            "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> {1,2,3,4}",
	"only options lit":             "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> n",
	"only options map":             "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> {\"o\":nil,\"k\":\"v\",\"l\":{\"e0\",{\"z\":3}}}",
	"only options missing":         "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> not found",
	"only options num":             "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> 42",
	"only options ref":             "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> 1-",
	"only options sc":              "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> nvk",
	"only options sec":             "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> sensitive [value redacted]",
	"only options str":             "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> x is n",
	"only options sub":             "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\n=> v",
	"options a":                    "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"a\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Found key: \"a\" value: 1\n=> 1",
	"options al":                   "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"al\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"%{alias('map')}\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/nodes/n.yaml\"\n            Original path: \"nodes/%{x}.yaml\"\n            No such key: \"map\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            Found key: \"map\" value: {\n              \"k\": \"v\",\n              \"l\": {\n                \"e0\",\n                {\n                  \"z\": 3\n                }\n              }\n            }\n      Found key: \"al\" value: {\n        \"k\": \"v\",\n        \"l\": {\n          \"e0\",\n          {\n            \"z\": 3\n          }\n        }\n      }\n=> {\"k\":\"v\",\"l\":{\"e0\",{\"z\":3}}}",
	"options al.k":                 "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"al\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"%{alias('map')}\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/nodes/n.yaml\"\n            Original path: \"nodes/%{x}.yaml\"\n            No such key: \"map\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            Found key: \"map\" value: {\n              \"k\": \"v\",\n              \"l\": {\n                \"e0\",\n                {\n                  \"z\": 3\n                }\n              }\n            }\n      Found key: \"al\" value: {\n        \"k\": \"v\",\n        \"l\": {\n          \"e0\",\n          {\n            \"z\": 3\n          }\n        }\n      }\nSub key: \"k\"\n  Found key: \"k\" value: \"v\"\n=> v",
	"options b":                    "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"b\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"b\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      Found key: \"b\" value: \"from a\"\n=> from a",
	"options c":                    "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"c\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"c\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"c\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      Found key: \"c\" value: \"from b\"\n=> from b",
	"options d":                    "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"d\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"d\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"d\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"d\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"d\"\n    Path \"DIR/data/g/2.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"d\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/m_one.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"d\"\n    Path \"DIR/data/m_none.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      path not found\n    Path \"DIR/data/m_two.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"d\"\n  lookup_key function 'fn'\n    URI \"http://h/1\"\n      Original uri: \"http://h/1\"\n      No such key: \"d\"\n      key function asked for d\n    URI \"http://h/2\"\n      Original uri: \"http://h/2\"\n      No such key: \"d\"\n      key function asked for d\n  data_dig function 'dg'\n    No such key: \"d\"\n  data_hash function 'yaml_data'\n  data_hash function 'dh'\n    No such key: \"d\"\n=> not found",
	"options deep":                 "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"deep\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Found key: \"deep\" value: {\n        \"p\": {\n          \"n\": 1\n        }\n      }\n=> {\"p\":{\"n\":1}}",
	"options dig":                  "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"dig\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"dig\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"dig\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"dig\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"dig\"\n    Path \"DIR/data/g/2.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"dig\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/m_one.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"dig\"\n    Path \"DIR/data/m_none.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      path not found\n    Path \"DIR/data/m_two.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"dig\"\n  lookup_key function 'fn'\n    URI \"http://h/1\"\n      Original uri: \"http://h/1\"\n      No such key: \"dig\"\n      key function asked for dig\n    URI \"http://h/2\"\n      Original uri: \"http://h/2\"\n      No such key: \"dig\"\n      key function asked for dig\n  data_dig function 'dg'\n    Found key: \"dig\" value: \"dug {\\\"dig\\\"}\"\n=> dug {\"dig\"}",
	"options f":                    "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"f\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"f\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"f\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"f\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"f\"\n    Path \"DIR/data/g/2.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"f\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/m_one.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"f\"\n    Path \"DIR/data/m_none.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      path not found\n    Path \"DIR/data/m_two.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"f\"\n  lookup_key function 'fn'\n    URI \"http://h/1\"\n      Original uri: \"http://h/1\"\n      No such key: \"f\"\n      key function asked for f\n    URI \"http://h/2\"\n      Original uri: \"http://h/2\"\n      Found key: \"f\" value: \"from fn\"\n      key function asked for f\n=> from fn",
	"options glob":                 "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"glob\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"glob\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"glob\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"glob\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      Found key: \"glob\" value: 1\n=> 1",
	"options hash":                 "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"hash\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"hash\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"hash\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"hash\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"hash\"\n    Path \"DIR/data/g/2.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"hash\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/m_one.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"hash\"\n    Path \"DIR/data/m_none.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      path not found\n    Path \"DIR/data/m_two.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"hash\"\n  lookup_key function 'fn'\n    URI \"http://h/1\"\n      Original uri: \"http://h/1\"\n      No such key: \"hash\"\n      key function asked for hash\n    URI \"http://h/2\"\n      Original uri: \"http://h/2\"\n      No such key: \"hash\"\n      key function asked for hash\n  data_dig function 'dg'\n    No such key: \"hash\"\n  data_hash function 'yaml_data'\n  data_hash function 'dh'\n    Found key: \"hash\" value: \"from dh\"\n=> from dh",
	"options inv":                  "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"inv\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"%{lookup('lookup_options')}\"\n        Invalid key \"lookup_options\"\n      Found key: \"inv\" value: \"\"\n=> ",
	"options list":                 "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"list\"\n  Using merge options from \"lookup_options\" hash\n  Merge strategy \"unique merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"list\" value: {\n          1,\n          2\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"unique merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"list\" value: {\n            2,\n            3\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"list\"\n        Merged result: {\n          2,\n          3\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"unique merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"list\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"list\"\n    data_hash function 'yaml_data'\n      Merge strategy \"unique merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          Found key: \"list\" value: {\n            4\n          }\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"list\"\n        Merged result: {\n          4\n        }\n    lookup_key function 'fn'\n      Merge strategy \"unique merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"list\"\n          key function asked for list\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"list\"\n          key function asked for list\n    data_dig function 'dg'\n      No such key: \"list\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"list\"\n    Merged result: {\n      1,\n      2,\n      3,\n      4\n    }\n=> {1,2,3,4}",
	"options lit":                  "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"lit\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"%{literal('%')}{x}\"\n      Found key: \"lit\" value: \"%{x}\"\nInterpolation on \"%{x}\"\n=> n",
	"options map":                  "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"map\"\n  Using merge options from \"lookup_options\" hash\n  Merge strategy \"hash merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"map\" value: {\n            \"k\": \"v\",\n            \"l\": {\n              \"e0\",\n              {\n                \"z\": 3\n              }\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          Found key: \"map\" value: {\n            \"o\": nil\n          }\n        Merged result: {\n          \"o\": nil,\n          \"k\": \"v\",\n          \"l\": {\n            \"e0\",\n            {\n              \"z\": 3\n            }\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n    lookup_key function 'fn'\n      Merge strategy \"hash merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"map\"\n          key function asked for map\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"map\"\n          key function asked for map\n    data_dig function 'dg'\n      No such key: \"map\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"map\"\n    Merged result: {\n      \"o\": nil,\n      \"k\": \"v\",\n      \"l\": {\n        \"e0\",\n        {\n          \"z\": 3\n        }\n      }\n    }\n=> {\"o\":nil,\"k\":\"v\",\"l\":{\"e0\",{\"z\":3}}}",
	"options missing":              "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"missing\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"missing\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"missing\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"missing\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"missing\"\n    Path \"DIR/data/g/2.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"missing\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/m_one.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"missing\"\n    Path \"DIR/data/m_none.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      path not found\n    Path \"DIR/data/m_two.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"missing\"\n  lookup_key function 'fn'\n    URI \"http://h/1\"\n      Original uri: \"http://h/1\"\n      No such key: \"missing\"\n      key function asked for missing\n    URI \"http://h/2\"\n      Original uri: \"http://h/2\"\n      No such key: \"missing\"\n      key function asked for missing\n  data_dig function 'dg'\n    No such key: \"missing\"\n  data_hash function 'yaml_data'\n  data_hash function 'dh'\n    No such key: \"missing\"\n=> not found",
	"options num":                  "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"num\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"num\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"num\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      Found key: \"num\" value: 42\n=> 42",
	"options ref":                  "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"ref\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"%{lookup('a')}-%{lookup('nope')}\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/nodes/n.yaml\"\n            Original path: \"nodes/%{x}.yaml\"\n            Found key: \"a\" value: 1\n        data_hash function 'yaml_data'\n          Path \"DIR/data/nodes/n.yaml\"\n            Original path: \"nodes/%{x}.yaml\"\n            No such key: \"nope\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            No such key: \"nope\"\n          Path \"DIR/data/missing.yaml\"\n            Original path: \"missing.yaml\"\n            path not found\n          Path \"DIR/data/b_n.yaml\"\n            Original path: \"b_%{x}.yaml\"\n            No such key: \"nope\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/g/1.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"nope\"\n          Path \"DIR/data/g/2.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"nope\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/m_one.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"nope\"\n          Path \"DIR/data/m_none.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            path not found\n          Path \"DIR/data/m_two.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"nope\"\n        lookup_key function 'fn'\n          URI \"http://h/1\"\n            Original uri: \"http://h/1\"\n            No such key: \"nope\"\n            key function asked for nope\n          URI \"http://h/2\"\n            Original uri: \"http://h/2\"\n            No such key: \"nope\"\n            key function asked for nope\n        data_dig function 'dg'\n          No such key: \"nope\"\n        data_hash function 'yaml_data'\n        data_hash function 'dh'\n          No such key: \"nope\"\n      Found key: \"ref\" value: \"1-\"\n=> 1-",
	"options sc":                   "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"sc\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"%{scope('x')}%{v4.k}%{missing}\"\n        Sub key: \"k\"\n          Found key: \"k\" value: \"vk\"\n      Found key: \"sc\" value: \"nvk\"\n=> nvk",
	"options sec":                  "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"sec\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Found key: \"sec\" value: \"hidden\"\n=> sensitive [value redacted]",
	"options str":                  "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"str\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"x is %{x}\"\n      Found key: \"str\" value: \"x is n\"\n=> x is n",
	"options sub":                  "Searching for \"lookup_options\"\n  Merge strategy \"deep merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"lookup_options\" value: {\n          \"deep\": \"deep\",\n          \"list\": {\n            \"merge\": \"unique\"\n          },\n          \"sec\": {\n            \"convert_to\": \"sensitive\"\n          },\n          \"num\": {\n            \"convert_to\": \"string\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"lookup_options\" value: {\n            \"map\": {\n              \"merge\": \"hash\"\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"lookup_options\"\n        Merged result: {\n          \"map\": {\n            \"merge\": \"hash\"\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n      Merge strategy \"deep merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"lookup_options\"\n    lookup_key function 'fn'\n      Merge strategy \"deep merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"lookup_options\"\n          key function asked for lookup_options\n    data_dig function 'dg'\n      No such key: \"lookup_options\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"lookup_options\"\n    Merged result: {\n      \"deep\": \"deep\",\n      \"list\": {\n        \"merge\": \"unique\"\n      },\n      \"sec\": {\n        \"convert_to\": \"sensitive\"\n      },\n      \"num\": {\n        \"convert_to\": \"string\"\n      },\n      \"map\": {\n        \"merge\": \"hash\"\n      }\n    }\nSearching for \"sub\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"%{lookup('map.k')}\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/nodes/n.yaml\"\n            Original path: \"nodes/%{x}.yaml\"\n            No such key: \"map\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            Found key: \"map\" value: {\n              \"k\": \"v\",\n              \"l\": {\n                \"e0\",\n                {\n                  \"z\": 3\n                }\n              }\n            }\n        Sub key: \"k\"\n          Found key: \"k\" value: \"v\"\n      Found key: \"sub\" value: \"v\"\n=> v",
	"plain a":                      "Searching for \"a\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Found key: \"a\" value: 1\n=> 1",
	"plain al":                     "Searching for \"al\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"%{alias('map')}\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/nodes/n.yaml\"\n            Original path: \"nodes/%{x}.yaml\"\n            No such key: \"map\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            Found key: \"map\" value: {\n              \"k\": \"v\",\n              \"l\": {\n                \"e0\",\n                {\n                  \"z\": 3\n                }\n              }\n            }\n      Found key: \"al\" value: {\n        \"k\": \"v\",\n        \"l\": {\n          \"e0\",\n          {\n            \"z\": 3\n          }\n        }\n      }\n=> {\"k\":\"v\",\"l\":{\"e0\",{\"z\":3}}}",
	"plain al.k":                   "Searching for \"al\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"%{alias('map')}\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/nodes/n.yaml\"\n            Original path: \"nodes/%{x}.yaml\"\n            No such key: \"map\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            Found key: \"map\" value: {\n              \"k\": \"v\",\n              \"l\": {\n                \"e0\",\n                {\n                  \"z\": 3\n                }\n              }\n            }\n      Found key: \"al\" value: {\n        \"k\": \"v\",\n        \"l\": {\n          \"e0\",\n          {\n            \"z\": 3\n          }\n        }\n      }\nSub key: \"k\"\n  Found key: \"k\" value: \"v\"\n=> v",
	"plain b":                      "Searching for \"b\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"b\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      Found key: \"b\" value: \"from a\"\n=> from a",
	"plain c":                      "Searching for \"c\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"c\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"c\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      Found key: \"c\" value: \"from b\"\n=> from b",
	"plain d":                      "Searching for \"d\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"d\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"d\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"d\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"d\"\n    Path \"DIR/data/g/2.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"d\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/m_one.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"d\"\n    Path \"DIR/data/m_none.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      path not found\n    Path \"DIR/data/m_two.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"d\"\n  lookup_key function 'fn'\n    URI \"http://h/1\"\n      Original uri: \"http://h/1\"\n      No such key: \"d\"\n      key function asked for d\n    URI \"http://h/2\"\n      Original uri: \"http://h/2\"\n      No such key: \"d\"\n      key function asked for d\n  data_dig function 'dg'\n    No such key: \"d\"\n  data_hash function 'yaml_data'\n  data_hash function 'dh'\n    No such key: \"d\"\n=> not found",
	"plain deep":                   "Searching for \"deep\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Found key: \"deep\" value: {\n        \"p\": {\n          \"n\": 1\n        }\n      }\n=> {\"p\":{\"n\":1}}",
	"plain deep.p.m":               "Searching for \"deep\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Found key: \"deep\" value: {\n        \"p\": {\n          \"n\": 1\n        }\n      }\nSub key: \"p.m\"\n  Found key: \"p\" value: {\n    \"n\": 1\n  }\n  No such key: \"m\"\n=> not found",
	"plain dig":                    "Searching for \"dig\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"dig\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"dig\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"dig\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"dig\"\n    Path \"DIR/data/g/2.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"dig\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/m_one.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"dig\"\n    Path \"DIR/data/m_none.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      path not found\n    Path \"DIR/data/m_two.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"dig\"\n  lookup_key function 'fn'\n    URI \"http://h/1\"\n      Original uri: \"http://h/1\"\n      No such key: \"dig\"\n      key function asked for dig\n    URI \"http://h/2\"\n      Original uri: \"http://h/2\"\n      No such key: \"dig\"\n      key function asked for dig\n  data_dig function 'dg'\n    Found key: \"dig\" value: \"dug {\\\"dig\\\"}\"\n=> dug {\"dig\"}",
	"plain dig.a.1":                "Searching for \"dig\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"dig\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"dig\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"dig\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"dig\"\n    Path \"DIR/data/g/2.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"dig\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/m_one.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"dig\"\n    Path \"DIR/data/m_none.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      path not found\n    Path \"DIR/data/m_two.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"dig\"\n  lookup_key function 'fn'\n    URI \"http://h/1\"\n      Original uri: \"http://h/1\"\n      No such key: \"dig\"\n      key function asked for dig\n    URI \"http://h/2\"\n      Original uri: \"http://h/2\"\n      No such key: \"dig\"\n      key function asked for dig\n  data_dig function 'dg'\n    Found key: \"dig\" value: \"dug {\\\"dig\\\"}\"\nSub key: \"a.1\"\n  No such key: \"a\"\n=> not found",
	"plain f":                      "Searching for \"f\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"f\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"f\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"f\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"f\"\n    Path \"DIR/data/g/2.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"f\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/m_one.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"f\"\n    Path \"DIR/data/m_none.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      path not found\n    Path \"DIR/data/m_two.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"f\"\n  lookup_key function 'fn'\n    URI \"http://h/1\"\n      Original uri: \"http://h/1\"\n      No such key: \"f\"\n      key function asked for f\n    URI \"http://h/2\"\n      Original uri: \"http://h/2\"\n      Found key: \"f\" value: \"from fn\"\n      key function asked for f\n=> from fn",
	"plain glob":                   "Searching for \"glob\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"glob\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"glob\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"glob\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      Found key: \"glob\" value: 1\n=> 1",
	"plain hash":                   "Searching for \"hash\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"hash\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"hash\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"hash\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"hash\"\n    Path \"DIR/data/g/2.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"hash\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/m_one.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"hash\"\n    Path \"DIR/data/m_none.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      path not found\n    Path \"DIR/data/m_two.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"hash\"\n  lookup_key function 'fn'\n    URI \"http://h/1\"\n      Original uri: \"http://h/1\"\n      No such key: \"hash\"\n      key function asked for hash\n    URI \"http://h/2\"\n      Original uri: \"http://h/2\"\n      No such key: \"hash\"\n      key function asked for hash\n  data_dig function 'dg'\n    No such key: \"hash\"\n  data_hash function 'yaml_data'\n  data_hash function 'dh'\n    Found key: \"hash\" value: \"from dh\"\n=> from dh",
	"plain inv":                    "Searching for \"inv\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"%{lookup('lookup_options')}\"\n        Invalid key \"lookup_options\"\n      Found key: \"inv\" value: \"\"\n=> ",
	"plain list":                   "Searching for \"list\"\n  Using merge options from \"lookup_options\" hash\n  Merge strategy \"unique merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        Found key: \"list\" value: {\n          1,\n          2\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"unique merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"list\" value: {\n            2,\n            3\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          No such key: \"list\"\n        Merged result: {\n          2,\n          3\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"unique merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"list\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"list\"\n    data_hash function 'yaml_data'\n      Merge strategy \"unique merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          Found key: \"list\" value: {\n            4\n          }\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"list\"\n        Merged result: {\n          4\n        }\n    lookup_key function 'fn'\n      Merge strategy \"unique merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"list\"\n          key function asked for list\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"list\"\n          key function asked for list\n    data_dig function 'dg'\n      No such key: \"list\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"list\"\n    Merged result: {\n      1,\n      2,\n      3,\n      4\n    }\n=> {1,2,3,4}",
	"plain lit":                    "Searching for \"lit\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"%{literal('%')}{x}\"\n      Found key: \"lit\" value: \"%{x}\"\nInterpolation on \"%{x}\"\n=> n",
	"plain lookup_options":         "\nInvalid key \"lookup_options\"\n=> not found",
	"plain lookup_options.a":       "\nInvalid key \"lookup_options.a\"\n=> not found",
	"plain map":                    "Searching for \"map\"\n  Using merge options from \"lookup_options\" hash\n  Merge strategy \"hash merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"map\" value: {\n            \"k\": \"v\",\n            \"l\": {\n              \"e0\",\n              {\n                \"z\": 3\n              }\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          Found key: \"map\" value: {\n            \"o\": nil\n          }\n        Merged result: {\n          \"o\": nil,\n          \"k\": \"v\",\n          \"l\": {\n            \"e0\",\n            {\n              \"z\": 3\n            }\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n    lookup_key function 'fn'\n      Merge strategy \"hash merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"map\"\n          key function asked for map\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"map\"\n          key function asked for map\n    data_dig function 'dg'\n      No such key: \"map\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"map\"\n    Merged result: {\n      \"o\": nil,\n      \"k\": \"v\",\n      \"l\": {\n        \"e0\",\n        {\n          \"z\": 3\n        }\n      }\n    }\n=> {\"o\":nil,\"k\":\"v\",\"l\":{\"e0\",{\"z\":3}}}",
	"plain map.l.1.z":              "Searching for \"map\"\n  Using merge options from \"lookup_options\" hash\n  Merge strategy \"hash merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"map\" value: {\n            \"k\": \"v\",\n            \"l\": {\n              \"e0\",\n              {\n                \"z\": 3\n              }\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          Found key: \"map\" value: {\n            \"o\": nil\n          }\n        Merged result: {\n          \"o\": nil,\n          \"k\": \"v\",\n          \"l\": {\n            \"e0\",\n            {\n              \"z\": 3\n            }\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n    lookup_key function 'fn'\n      Merge strategy \"hash merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"map\"\n          key function asked for map\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"map\"\n          key function asked for map\n    data_dig function 'dg'\n      No such key: \"map\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"map\"\n    Merged result: {\n      \"o\": nil,\n      \"k\": \"v\",\n      \"l\": {\n        \"e0\",\n        {\n          \"z\": 3\n        }\n      }\n    }\nSub key: \"l.1.z\"\n  Found key: \"l\" value: {\n    \"e0\",\n    {\n      \"z\": 3\n    }\n  }\n  Found key: \"1\" value: {\n    \"z\": 3\n  }\n  Found key: \"z\" value: 3\n=> 3",
	"plain map.l.7":                "Searching for \"map\"\n  Using merge options from \"lookup_options\" hash\n  Merge strategy \"hash merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"map\" value: {\n            \"k\": \"v\",\n            \"l\": {\n              \"e0\",\n              {\n                \"z\": 3\n              }\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          Found key: \"map\" value: {\n            \"o\": nil\n          }\n        Merged result: {\n          \"o\": nil,\n          \"k\": \"v\",\n          \"l\": {\n            \"e0\",\n            {\n              \"z\": 3\n            }\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n    lookup_key function 'fn'\n      Merge strategy \"hash merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"map\"\n          key function asked for map\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"map\"\n          key function asked for map\n    data_dig function 'dg'\n      No such key: \"map\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"map\"\n    Merged result: {\n      \"o\": nil,\n      \"k\": \"v\",\n      \"l\": {\n        \"e0\",\n        {\n          \"z\": 3\n        }\n      }\n    }\nSub key: \"l.7\"\n  Found key: \"l\" value: {\n    \"e0\",\n    {\n      \"z\": 3\n    }\n  }\n  No such key: \"7\"\n=> not found",
	"plain map.nope":               "Searching for \"map\"\n  Using merge options from \"lookup_options\" hash\n  Merge strategy \"hash merge strategy\"\n    data_hash function 'yaml_data'\n      Path \"DIR/data/nodes/n.yaml\"\n        Original path: \"nodes/%{x}.yaml\"\n        No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/a.yaml\"\n          Original path: \"a.yaml\"\n          Found key: \"map\" value: {\n            \"k\": \"v\",\n            \"l\": {\n              \"e0\",\n              {\n                \"z\": 3\n              }\n            }\n          }\n        Path \"DIR/data/missing.yaml\"\n          Original path: \"missing.yaml\"\n          path not found\n        Path \"DIR/data/b_n.yaml\"\n          Original path: \"b_%{x}.yaml\"\n          Found key: \"map\" value: {\n            \"o\": nil\n          }\n        Merged result: {\n          \"o\": nil,\n          \"k\": \"v\",\n          \"l\": {\n            \"e0\",\n            {\n              \"z\": 3\n            }\n          }\n        }\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/g/1.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/g/2.yaml\"\n          Original path: \"g/*.yaml\"\n          No such key: \"map\"\n    data_hash function 'yaml_data'\n      Merge strategy \"hash merge strategy\"\n        Path \"DIR/data/m_one.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n        Path \"DIR/data/m_none.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          path not found\n        Path \"DIR/data/m_two.yaml\"\n          Original path: \"m_%{y}.yaml\"\n          No such key: \"map\"\n    lookup_key function 'fn'\n      Merge strategy \"hash merge strategy\"\n        URI \"http://h/1\"\n          Original uri: \"http://h/1\"\n          No such key: \"map\"\n          key function asked for map\n        URI \"http://h/2\"\n          Original uri: \"http://h/2\"\n          No such key: \"map\"\n          key function asked for map\n    data_dig function 'dg'\n      No such key: \"map\"\n    data_hash function 'yaml_data'\n    data_hash function 'dh'\n      No such key: \"map\"\n    Merged result: {\n      \"o\": nil,\n      \"k\": \"v\",\n      \"l\": {\n        \"e0\",\n        {\n          \"z\": 3\n        }\n      }\n    }\nSub key: \"nope\"\n  No such key: \"nope\"\n=> not found",
	"plain mapped":                 "Searching for \"mapped\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"mapped\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"mapped\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"mapped\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"mapped\"\n    Path \"DIR/data/g/2.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"mapped\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/m_one.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      Interpolation on \"%{y}\"\n      Found key: \"mapped\" value: \"\"\n=> ",
	"plain missing":                "Searching for \"missing\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"missing\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"missing\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      No such key: \"missing\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/g/1.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"missing\"\n    Path \"DIR/data/g/2.yaml\"\n      Original path: \"g/*.yaml\"\n      No such key: \"missing\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/m_one.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"missing\"\n    Path \"DIR/data/m_none.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      path not found\n    Path \"DIR/data/m_two.yaml\"\n      Original path: \"m_%{y}.yaml\"\n      No such key: \"missing\"\n  lookup_key function 'fn'\n    URI \"http://h/1\"\n      Original uri: \"http://h/1\"\n      No such key: \"missing\"\n      key function asked for missing\n    URI \"http://h/2\"\n      Original uri: \"http://h/2\"\n      No such key: \"missing\"\n      key function asked for missing\n  data_dig function 'dg'\n    No such key: \"missing\"\n  data_hash function 'yaml_data'\n  data_hash function 'dh'\n    No such key: \"missing\"\n=> not found",
	"plain num":                    "Searching for \"num\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      No such key: \"num\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/a.yaml\"\n      Original path: \"a.yaml\"\n      No such key: \"num\"\n    Path \"DIR/data/missing.yaml\"\n      Original path: \"missing.yaml\"\n      path not found\n    Path \"DIR/data/b_n.yaml\"\n      Original path: \"b_%{x}.yaml\"\n      Found key: \"num\" value: 42\n=> 42",
	"plain ref":                    "Searching for \"ref\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"%{lookup('a')}-%{lookup('nope')}\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/nodes/n.yaml\"\n            Original path: \"nodes/%{x}.yaml\"\n            Found key: \"a\" value: 1\n        data_hash function 'yaml_data'\n          Path \"DIR/data/nodes/n.yaml\"\n            Original path: \"nodes/%{x}.yaml\"\n            No such key: \"nope\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            No such key: \"nope\"\n          Path \"DIR/data/missing.yaml\"\n            Original path: \"missing.yaml\"\n            path not found\n          Path \"DIR/data/b_n.yaml\"\n            Original path: \"b_%{x}.yaml\"\n            No such key: \"nope\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/g/1.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"nope\"\n          Path \"DIR/data/g/2.yaml\"\n            Original path: \"g/*.yaml\"\n            No such key: \"nope\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/m_one.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"nope\"\n          Path \"DIR/data/m_none.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            path not found\n          Path \"DIR/data/m_two.yaml\"\n            Original path: \"m_%{y}.yaml\"\n            No such key: \"nope\"\n        lookup_key function 'fn'\n          URI \"http://h/1\"\n            Original uri: \"http://h/1\"\n            No such key: \"nope\"\n            key function asked for nope\n          URI \"http://h/2\"\n            Original uri: \"http://h/2\"\n            No such key: \"nope\"\n            key function asked for nope\n        data_dig function 'dg'\n          No such key: \"nope\"\n        data_hash function 'yaml_data'\n        data_hash function 'dh'\n          No such key: \"nope\"\n      Found key: \"ref\" value: \"1-\"\n=> 1-",
	"plain sc":                     "Searching for \"sc\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"%{scope('x')}%{v4.k}%{missing}\"\n        Sub key: \"k\"\n          Found key: \"k\" value: \"vk\"\n      Found key: \"sc\" value: \"nvk\"\n=> nvk",
	"plain sec":                    "Searching for \"sec\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Found key: \"sec\" value: \"hidden\"\n=> sensitive [value redacted]",
	"plain str":                    "Searching for \"str\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"x is %{x}\"\n      Found key: \"str\" value: \"x is n\"\n=> x is n",
	"plain sub":                    "Searching for \"sub\"\n  data_hash function 'yaml_data'\n    Path \"DIR/data/nodes/n.yaml\"\n      Original path: \"nodes/%{x}.yaml\"\n      Interpolation on \"%{lookup('map.k')}\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/nodes/n.yaml\"\n            Original path: \"nodes/%{x}.yaml\"\n            No such key: \"map\"\n        data_hash function 'yaml_data'\n          Path \"DIR/data/a.yaml\"\n            Original path: \"a.yaml\"\n            Found key: \"map\" value: {\n              \"k\": \"v\",\n              \"l\": {\n                \"e0\",\n                {\n                  \"z\": 3\n                }\n              }\n            }\n        Sub key: \"k\"\n          Found key: \"k\" value: \"v\"\n      Found key: \"sub\" value: \"v\"\n=> v",
}
