package main

func init() {
	rules["X01"] = &Rule{
		Level:     "other",
		Technique: "abstract interpretation of all back ends with a panic check on every operation, induction on sub-trees",
		Explanation: "The three back ends are interpreted over their SSA form on an arbitrary tree, model, schema, dialect and configuration; every index, nil dereference, type assertion, division and map write is an operation that may panic. " +
			"A partition in which one of them panics, or that can not be decided, is a violation.",
		Assumptions: []string{"every edge of an ent schema node has a target type and a specification", "gorm and ent functions themselves do not panic for the arguments shown to be given to them", "list lengths are partitioned into 0 to 3 and the neighbourhood of integer constants in the source"},
		Run: func(c *Ctx) {
			analyseGorm(c, "X01")
			analyseEntSQL(c)
			analyseEntQL(c)
			analyseApplyEntQL(c)
		},
	}
}
