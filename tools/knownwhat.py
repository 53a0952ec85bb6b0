WHAT = {
 '2bc1449': "WzImage::at_path returned the wrong node or an error for paths through canvases, convexes and raw data, and walked into the bytes of leaves for absent ones",
 'bd5455c': "WzImage::at_path failed for the single child of a script or text image",
 'ae80c5b': "get_image_node_from_path mistook '.img' inside a name for the image and failed for a path that ends at the image",
 '15a62b5': "a second-generation name of 128 (or 32768) characters overflowed its length",
 'a62e9ae': "string readers over a buffer panicked on input that ends early",
 'a3d3ff1': "EcbDecryptor::at panicked for a key without encryption; set_iv kept the stream of the key before",
 '6515eed': "encrypting text with characters outside the basic plane lost its last characters",
 'c669913': "WzReader::encrypt_str used the ordinary form and key for second-generation directory names",
 '04b37bb': "archives without a version header opened for version 770 to 777 only when detected and for none when the version was given",
 '4e5b2eb': "an archive without a version header whose entry count is a multiple of 256 was read as if it had one",
 '5a76818': "the key was verified against the wrong bytes when the first name is stored by reference or the first entry is an unknown one",
 '50c5704': "a given key was dropped for archives whose first name is not ascii; unreadable names were accepted",
 'a1a8272': "guessing the key of an empty image panicked",
 '2eb4ea0': "an image under another key parsed to an empty tree instead of an error",
 '11835e1': "an entry name that is no text panicked",
 '1a7e6b8': "a negative entry size wrapped around and was accepted",
 'dc0ecdd': "a directory listed inside itself overflowed the stack",
 '4ea6711': "a directory could not be parsed again after unparse",
 'ec59d9d': "walk_node held the node's lock while the callback ran: a callback that writes it never returned",
 'ea26f2d': "resolving an outlink held the base's lock while parsing below it: two threads could block each other for ever",
 'a57518b': "links that lead in a circle overflowed the stack; get_image held a lock while following links",
 '7ec571b': "a UOL to one of its own ancestors made the tree contain itself (endless walks, leaked trees)",
 '63575fa': "a negative or huge property count panicked or aborted",
 '33f457e': "payloads that reach past the file panicked when read",
 'a26057c': "resolving a UOL put the target in the wrong slot for some names and panicked when its parent was gone",
 '9c15895': "block-compressed canvases of sizes off the 4x4 grid and data that is too short panicked or gave wrong pixels",
 '3dd9f44': "canvas data that is not inside the file panicked",
 '865b4af': "an encrypted block that reaches past its canvas was filled with the bytes that follow the canvas",
}
