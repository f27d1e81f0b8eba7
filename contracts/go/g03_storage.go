// Contracts for the classification of storage transitions (property G03).
package tosca

import "vc"

// the transition classes of the EVM (EIP-2200, EVMC): O original, C current, N new value
func vcClass(oz, cz, nz, oc, on, cn bool) StorageStatus {
	switch {
	case cn:
		return StorageAssigned
	case oc && oz:
		return StorageAdded // 0 0 Z
	case oc && nz:
		return StorageDeleted // X X 0
	case oc:
		return StorageModified // X X Z
	case oz && nz:
		return StorageAddedDeleted // 0 Y 0
	case oz:
		return StorageAssigned // 0 Y Z
	case cz && on:
		return StorageDeletedRestored // X 0 X
	case cz:
		return StorageDeletedAdded // X 0 Z
	case on:
		return StorageModifiedRestored // X Y X
	case nz:
		return StorageModifiedDeleted // X Y 0
	}
	return StorageAssigned // X Y Z
}

func vch_storage_status() {
	o, c, n := Word(vc.Word("original")), Word(vc.Word("current")), Word(vc.Word("new"))
	got := GetStorageStatus(o, c, n)
	zero := Word{}
	want := vcClass(o == zero, c == zero, n == zero, o == c, o == n, c == n)
	vc.Ensures("a transition has the class the EVM gives it", got == want)
	if c == n {
		vc.Ensures("writing the current value is a plain assignment", got == StorageAssigned)
		vc.Cover("unchanged")
	}
	vc.Cover("status")
}

// the numbering of the classes is part of the interface shared with the EVMC bindings
func vch_storage_numbering() {
	ok := StorageAssigned == 0 && StorageAdded == 1 && StorageDeleted == 2 && StorageModified == 3 && StorageDeletedAdded == 4 &&
		StorageModifiedDeleted == 5 && StorageDeletedRestored == 6 && StorageAddedDeleted == 7 && StorageModifiedRestored == 8
	vc.Ensures("the classes are numbered as in EVMC", ok)
	vc.Cover("numbering")
}
