P = dict(id='C02', title='Host serialization round-trips every value at every position',
 statement='Serializing a fixed-size value, string, pair, vector, vector-like container or map appends exactly the reported number of bytes behind what is already in the buffer and changes nothing before it. Deserializing from the position where it was written returns an equal value and reports the same number of bytes, whatever lies before and after, for nested values too. Encodings are the object representation of fixed-size values and a 64-bit item count followed by the items in order for containers.',
 over=['inputs'], text='Every value of the ten integer and floating types, every container content and size, every buffer prefix and suffix, every item serializer that itself round-trips.',
 why='No existing test serializes anything; wrong offsets show only with particular sizes, nesting or surrounding data.',
 files=['include/arc_utilities/serialization.hpp'],
 mech=[('fixed-size values', 'SerializeFixedSizePOD, DeserializeFixedSizePOD'), ('containers', 'SerializeVector, SerializeVectorLike, SerializeMap, SerializePair, SerializeString and their inverses')],
 note='All sizes by loop invariants over an abstract item codec, which the fixed-size functions are proved to implement; maps by their iteration order.')
