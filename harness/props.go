package main

import "sort"

func sortStrings(s []string) { sort.Strings(s) }

var properties map[string]property

func init() {
	properties = map[string]property{
		"C01": histProp(checkC01, 8),
		"C02": histProp(checkC02, 8),
		"C03": histProp(checkC03, 8),
		"C04": finalProp("every text of at most 4 symbols over {a, space, é, 😀, malformed byte}, also after one edit, and texts after random histories: every range with ends from -2 to the length + 2 (random ranges for long texts)", checkC04),
		"C05": finalProp("every text of at most 4 symbols over {a, space, é, 😀, malformed byte}, also after one edit, and texts after random histories: the whole table", checkC05),
		"C06": finalProp("every text of at most 4 symbols over {a, space, é, 😀, malformed byte}, also after one edit, and texts after random histories: every range of short texts, random ranges, chains of at most 4 nested slices", checkC06),
		"C07": finalProp("every text of at most 4 symbols over {a, space, é, 😀, malformed byte}, also after one edit, and texts after random histories: random tilings, predicates and characters with every behaviour", checkC07),
		"C08": propC08, "C09": propC09, "C10": propC10, "C11": propC11, "C12": propC12, "C13": propC13, "C14": propC14,
		"C15": propC15, "C16": propC16, "C17": propC17, "C18": propC18, "C19": propC19, "C20": propC20, "C21": propC21, "C22": propC22, "C23": propC23,
	}
}
