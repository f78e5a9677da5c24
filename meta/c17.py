P = dict(id='C17', title='Small value helpers: bits, clamps, map lookup and key/value assembly',
 statement='Setting a bit makes exactly that bit read back as set and leaves all others; clamping returns the nearest value of the range; looking a key up with a default never modifies the map and returns the stored value if and only if the key is present. Splitting a map into keys and values and reassembling them gives the map back.',
 text='All integer values and bit indices, all reals and ranges, all maps and keys.',
 why='The existing tests cover a handful of clamps; bit positions at and above 32 and absent keys are unsampled.',
 files=['include/arc_utilities/arc_helpers.hpp', 'include/arc_utilities/stl_wrappers.hpp'],
 mech=[('bit masks', 'arc_helpers::GetBit/SetBit'), ('clamps', 'ClampValue, ClampValueAndWarn, SpreadValue'), ('lookups', 'RetrieveOrDefault, GetKeys, MakeFromKeysAndValues')],
 observe=['return values, the maps passed in'],
 note='All proved for every input (bit vectors for bit operations, maps as functions with domains).')
