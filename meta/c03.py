P = dict(id='C03', title='Network serialization round-trips and is big-endian',
 statement='The network serializers write every fixed-size value most significant byte first, and strings, pairs, vectors and maps as a big-endian 64-bit item count followed by the items in order. They append exactly the reported number of bytes and change nothing before them; deserializing from that position returns an equal value and the same number of bytes, whatever lies before and after.',
 over=['inputs'], text='Every value of the ten supported types including NaN bit patterns, every container content and size, every buffer prefix and suffix, every item serializer that itself round-trips.',
 why='No existing test serializes anything; a swapped width or a host-order count round-trips on one machine and breaks the format.',
 files=['include/arc_utilities/serialization.hpp'],
 mech=[('fixed-size values', 'SerializeNetworkFixedSizePOD, DeserializeNetworkFixedSizePOD'), ('containers', 'SerializeNetworkVector, SerializeNetworkMap, SerializeNetworkPair, SerializeNetworkString and their inverses')],
 note='Byte order proved byte by byte for all ten types; containers of any size by loop invariants over an abstract item codec.')
