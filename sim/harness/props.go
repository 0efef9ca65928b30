package harness

func prop(s *propSpec) { props[s.id] = s }

func registerAll() {
	prop(&propSpec{id: "C01", items: []mixItem{{scen: "svx-plain", weight: 1}}, minIters: 64})
	prop(&propSpec{id: "C02", items: []mixItem{{scen: "svx-faults", weight: 1, faults: 5, maxF: 4}}, minIters: 64})
	prop(&propSpec{id: "C03", items: []mixItem{{scen: "svx-live", weight: 1, faults: 5, maxF: 5}}, minIters: 64})
	prop(&propSpec{id: "C04", items: []mixItem{{scen: "svx-multi", weight: 1, faults: 2, maxF: 3}}, race: true, minIters: 64})
	prop(&propSpec{id: "C05", items: []mixItem{{scen: "svx-excl", weight: 1, faults: 5, maxF: 5}}, minIters: 64})
	prop(&propSpec{id: "C06", items: []mixItem{{scen: "svx-cancel", weight: 1, faults: 2, maxF: 3}}, minIters: 64})
	prop(&propSpec{id: "C07", items: []mixItem{{scen: "svx-hostile", weight: 1}}, minIters: 64})
	prop(&propSpec{id: "C08", items: []mixItem{{scen: "voxel", weight: 1}}, race: true, minIters: 64})
	prop(&propSpec{id: "C09", items: []mixItem{{scen: "dice", weight: 3}, {scen: "stldice", weight: 1}}, race: true, minIters: 64})
	prop(&propSpec{id: "C10", items: []mixItem{{scen: "mergestl", weight: 1, faults: 3, maxF: 2}}, race: true, minIters: 64})
	prop(&propSpec{id: "C11", items: []mixItem{{scen: "binvoxfile", weight: 1, faults: 5, maxF: 3}}, minIters: 64})
	prop(&propSpec{id: "C12", items: []mixItem{{scen: "vshellfile", weight: 1, faults: 5, maxF: 3}}, race: true, minIters: 64})
	prop(&propSpec{id: "C13", items: []mixItem{{scen: "damage", weight: 1}}, minIters: 64})
	prop(&propSpec{id: "C14", items: []mixItem{{scen: "stldice", weight: 1, faults: 6, maxF: 4}}, minIters: 64})
	prop(&propSpec{id: "C15", items: []mixItem{{scen: "voxcut", weight: 1, faults: 4, maxF: 2}}, minIters: 64})
	prop(&propSpec{id: "C16", items: []mixItem{{scen: "voxcutdice", weight: 1, faults: 4, maxF: 2}}, minIters: 64})
	prop(&propSpec{id: "C17", items: []mixItem{{scen: "mergestltool", weight: 1, faults: 3, maxF: 2}, {scen: "mergebintool", weight: 1, faults: 3, maxF: 2}}, minIters: 64})
	prop(&propSpec{id: "C18", items: []mixItem{{scen: "svx2stl", weight: 1, faults: 3, maxF: 2}}, minIters: 64})
	prop(&propSpec{id: "C19", items: []mixItem{{scen: "svx-client", weight: 1, faults: 6, maxF: 3}}, minIters: 64})
	prop(&propSpec{id: "C20", items: []mixItem{{scen: "meshtool", weight: 1, faults: 2, maxF: 2}}, minIters: 64})
	prop(&propSpec{id: "C21", items: []mixItem{{scen: "shell", weight: 1}}, minIters: 64})
	prop(&propSpec{id: "C22", items: []mixItem{{scen: "binvoxdice", weight: 1, faults: 2, maxF: 1}}, minIters: 64})
	prop(&propSpec{id: "C23", items: []mixItem{{scen: "pipeline", weight: 1, faults: 5, maxF: 3}}, minIters: 64})
	prop(&propSpec{id: "C24", items: []mixItem{{scen: "svx-convert", weight: 1, faults: 2, maxF: 2}}, minIters: 64})
}
