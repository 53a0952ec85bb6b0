------- MODULE KeyStreams -------
\* generated from Aes.tla by tools/mkkeytab.sh
GmsStream == <<150, 174, 63, 164, 72, 250, 221, 144, 70, 118, 5, 97, 151, 206, 120, 104, 43, 160, 68, 143, 193, 86, 126, 50, 252, 225, 245, 179, 20, 20, 197, 34, 245, 195, 104, 46, 157, 195, 74, 11, 250, 254, 104, 69, 83, 138, 251, 93, 9, 79, 89, 252, 233, 17, 18, 155, 217, 15, 242, 232, 98, 105, 59, 118, 71, 136, 16, 117, 172, 227, 150, 215, 219, 18, 121, 205, 89, 228, 224, 12, 236, 161, 252, 210, 178, 60, 188, 74, 91, 157, 107, 169, 134, 41, 40, 130, 11, 67, 89, 64, 218, 231, 229, 147, 149, 223, 0, 2, 235, 138, 190, 12, 241, 16, 170, 91, 103, 148, 144, 244, 245, 206, 232, 225, 97, 9, 17, 9, 80, 226, 84, 76, 5, 73, 151, 136, 248, 240, 175, 21, 74, 108, 224, 14, 94, 192, 205, 171, 82, 32, 168, 46, 80, 100, 10, 26, 0, 62, 158, 233, 106, 208, 25, 181, 225, 142, 210, 49, 165, 67, 162, 40, 134, 245, 198, 125, 236, 33, 185, 52, 163, 15, 17, 226, 10, 5, 91, 182, 149, 13, 13, 93, 188, 168, 130, 126, 145, 254, 47, 232, 206, 238, 151, 222, 53, 217, 149, 66, 100, 97, 127, 171, 251, 255, 86, 182, 255, 191, 136, 154, 162, 145, 255, 2, 123, 208, 42, 86, 99, 12, 81, 40, 45, 183, 174, 177, 22, 80, 37, 66, 149, 126, 237, 159, 220, 137, 23, 161, 11, 59, 11, 57, 24, 155, 20, 38, 37, 7, 240, 111, 100, 43, 172, 67, 2, 226, 222, 84, 4, 163, 214, 225, 95, 25, 168, 105, 96, 203, 59, 137, 214, 255, 203, 152, 32, 63, 193, 84, 165, 131, 139, 133, 137, 132, 104, 119, 255, 57, 159, 85, 121, 98, 179, 222, 87, 239, 168, 20, 84, 90, 242, 11, 220, 192, 100, 117, 61, 145, 66, 161, 47, 193, 42, 30, 96, 225, 77, 56, 76, 203, 248, 169, 160, 145, 170, 164, 179, 112, 59, 233, 148, 16, 82, 63, 61, 210, 37, 172, 93, 247, 198, 154, 204, 128, 137, 80, 30, 33, 172, 130, 212, 71, 84, 139, 228, 71, 217, 41, 64, 153, 66, 123, 253, 219, 223, 211, 56, 87, 62, 72, 191, 132, 156, 44, 82, 178, 4, 109, 140, 18, 150, 58, 1, 216, 223, 186, 64, 89, 21, 206, 184, 42, 23, 172, 113, 52, 180, 241, 98, 102, 35, 188, 211, 217, 34, 74, 171, 152, 24, 58, 230, 84, 134, 156, 29, 45, 22, 54, 77, 118, 111, 182, 79, 16, 100, 113, 226, 159, 73, 65, 197, 203, 163, 110, 87, 129, 151, 150, 70, 179, 170, 234, 195, 33, 254, 255, 161, 83, 140, 129, 104, 246, 252, 103, 0, 106, 129, 123, 196, 70, 212, 241, 71, 234, 52, 166, 113, 197, 49, 36, 44, 189, 225, 83, 190, 170, 167, 184, 88, 201, 68, 29, 175, 107, 206, 81, 93, 84, 156, 184, 167, 8, 158, 89, 233, 157, 183, 161, 188, 122, 28, 122, 19, 228, 189, 15, 149, 239, 205, 96, 249, 224, 244, 102, 168, 0, 135, 192, 142, 38, 121, 88, 18, 29, 1, 61, 150, 126, 173, 166, 83, 190, 93, 65, 111, 2, 18, 167, 51, 104, 26, 215, 83, 80, 211, 221, 30, 11, 164, 137, 220, 116, 85, 221, 188, 136, 169, 39, 196, 54, 222, 85, 121, 10, 235, 108, 30, 147, 213, 88, 199, 69, 54, 44, 129, 150, 173, 14, 179, 48, 189, 195, 181, 237, 147, 227, 173, 97, 190, 21, 6, 183, 30, 195, 162, 238, 45, 131, 189, 3, 158, 240, 210, 209, 5, 32, 230, 14, 54, 159, 145, 20, 39, 83, 190, 34, 133, 138, 138, 12, 228, 229, 250, 131, 247, 184, 22, 121, 172, 105, 186, 60, 200, 88, 182, 7, 83, 229, 228, 142, 102, 35, 176, 47, 226, 73, 56, 253, 26, 41, 224, 170, 92, 68, 239, 248, 37, 215, 139, 82, 125, 160, 56, 173, 221, 247, 244, 177, 144, 152, 230, 44, 50, 34, 106, 93, 104, 129, 61, 200, 87, 60, 252, 26, 165, 129, 99, 60, 186, 0, 92, 196, 98, 70, 80, 218, 16, 45, 130, 201, 54, 105, 203, 27, 132, 5, 30, 171, 82, 195, 149, 33, 183, 198, 85, 210, 64, 244, 246, 10, 154, 52, 242, 54, 120, 193, 235, 108, 16, 83, 67, 185, 210, 162, 221, 233, 169, 56, 36, 81, 194, 57, 109, 193, 51, 202, 76, 192, 132, 78, 101, 65, 183, 65, 26, 140, 47, 229>>
EmsStream == <<171, 101, 73, 5, 103, 205, 87, 10, 152, 123, 135, 10, 236, 101, 7, 139, 149, 116, 54, 108, 179, 89, 41, 94, 162, 89, 3, 126, 191, 125, 203, 116, 144, 83, 38, 148, 24, 111, 97, 135, 208, 214, 121, 30, 172, 82, 233, 82, 130, 122, 30, 232, 6, 144, 239, 75, 3, 255, 211, 243, 112, 74, 57, 211, 22, 153, 184, 17, 148, 28, 129, 31, 253, 226, 241, 55, 106, 75, 183, 250, 81, 208, 13, 110, 172, 170, 228, 110, 42, 252, 194, 223, 64, 79, 247, 243, 48, 207, 200, 236, 7, 48, 253, 169, 0, 1, 230, 128, 169, 197, 87, 22, 176, 151, 135, 164, 90, 205, 152, 215, 153, 111, 188, 98, 99, 235, 213, 212, 19, 243, 77, 67, 138, 0, 71, 119, 209, 65, 91, 192, 123, 43, 249, 182, 247, 58, 9, 208, 24, 147, 155, 21, 96, 246, 111, 248, 83, 239, 50, 129, 151, 78, 41, 207, 104, 95, 195, 45, 238, 223, 149, 215, 103, 68, 64, 151, 146, 235, 145, 233, 124, 176, 66, 249, 64, 224, 163, 250, 195, 97, 110, 194, 103, 59, 249, 198, 145, 251, 40, 196, 55, 134, 61, 92, 137, 163, 36, 14, 252, 104, 23, 183, 55, 73, 28, 11, 88, 246, 127, 122, 75, 194, 248, 124, 170, 149, 21, 194, 198, 38, 113, 212, 157, 188, 73, 8, 81, 53, 13, 214, 147, 97, 186, 101, 124, 67, 233, 208, 192, 8, 46, 120, 92, 10, 190, 153, 117, 202, 42, 71, 71, 237, 208, 178, 217, 41, 79, 50, 186, 85, 42, 187, 172, 71, 228, 212, 134, 48, 202, 199, 128, 211, 247, 31, 18, 220, 195, 111, 6, 236, 138, 141, 31, 138, 62, 104, 219, 215, 147, 254, 39, 154, 143, 145, 19, 184, 41, 210, 201, 127, 180, 208, 255, 113, 255, 236, 232, 176, 57, 218, 173, 148, 198, 38, 247, 62, 72, 252, 142, 224, 3, 227, 24, 162, 107, 168, 107, 212, 215, 166, 106, 209, 2, 79, 11, 231, 227, 225, 51, 19, 42, 90, 194, 79, 32, 146, 255, 247, 217, 33, 3, 202, 104, 61, 185, 141, 121, 220, 118, 113, 182, 176, 208, 89, 59, 183, 223, 167, 247, 235, 109, 174, 151, 160, 126, 95, 158, 51, 31, 141, 81, 88, 162, 247, 141, 255, 149, 49, 110, 40, 84, 220, 1, 84, 246, 194, 171, 172, 27, 183, 105, 137, 0, 27, 145, 84, 198, 244, 187, 122, 105, 210, 45, 243, 76, 35, 174, 186, 175, 122, 157, 227, 14, 63, 61, 75, 119, 50, 20, 217, 182, 59, 200, 199, 6, 3, 218, 0, 218, 175, 171, 89, 84, 237, 29, 249, 77, 94, 28, 17, 43, 192, 124, 98, 74, 100, 84, 92, 78, 173, 16, 147, 141, 35, 211, 167, 241, 229, 162, 70, 11, 4, 155, 185, 62, 241, 43, 53, 111, 49, 83, 103, 123, 9, 215, 229, 132, 129, 149, 227, 106, 222, 132, 164, 234, 215, 231, 193, 37, 202, 231, 169, 163, 30, 203, 114, 120, 37, 215, 131, 130, 72, 66, 122, 88, 245, 148, 134, 130, 25, 25, 218, 218, 131, 14, 170, 71, 87, 122, 59, 68, 186, 140, 210, 62, 171, 98, 144, 237, 234, 216, 230, 217, 114, 117, 147, 219, 195, 246, 118, 161, 168, 92, 100, 63, 252, 109, 22, 230, 111, 67, 90, 20, 218, 219, 131, 175, 212, 205, 87, 121, 54, 106, 26, 21, 217, 154, 222, 253, 174, 227, 105, 254, 69, 10, 175, 61, 182, 57, 84, 57, 92, 118, 206, 196, 40, 104, 57, 82, 211, 115, 50, 248, 134, 187, 150, 14, 221, 40, 113, 56, 251, 240, 237, 38, 13, 137, 224, 14, 225, 102, 123, 124, 141, 52, 28, 79, 66, 27, 47, 246, 252, 41, 28, 218, 75, 6, 140, 104, 49, 179, 77, 19, 81, 214, 89, 123, 32, 91, 9, 88, 162, 178, 67, 110, 126, 5, 181, 53, 122, 217, 78, 110, 162, 54, 253, 127, 211, 0, 144, 244, 252, 6, 248, 216, 31, 109, 87, 124, 214, 188, 43, 197, 122, 108, 10, 68, 214, 65, 150, 150, 40, 7, 102, 204, 187, 175, 59, 0, 201, 127, 6, 248, 217, 8, 50, 243, 241, 146, 169, 165, 152, 103, 107, 253, 133, 54, 36, 167, 209, 196, 179, 216, 45, 161, 87, 7, 53, 24, 28, 98, 183, 63, 34, 135, 19, 5, 166, 139, 23, 175, 177, 132, 54, 146, 13, 138, 136, 179, 141, 140, 163, 27, 181, 171, 47, 142, 98>>
CustomStream == <<244, 37, 219, 210, 186, 115, 130, 20, 63, 105, 168, 140, 164, 103, 62, 196, 92, 32, 57, 22, 56, 10, 72, 6, 244, 108, 76, 181, 213, 166, 163, 228, 49, 216, 52, 226, 141, 198, 229, 132, 11, 53, 126, 129, 178, 172, 202, 112, 2, 150, 126, 181, 69, 21, 156, 237, 192, 159, 248, 46, 136, 235, 244, 46, 194, 168, 178, 88, 49, 171, 165, 216, 81, 215, 39, 227, 188, 62, 179, 200, 101, 36, 166, 168, 105, 240, 205, 57, 244, 123, 222, 195, 217, 133, 33, 229, 26, 59, 84, 79, 227, 141, 172, 219, 29, 242, 168, 109, 2, 21, 55, 95, 24, 137, 68, 40, 11, 176, 120, 226, 11, 245, 128, 38, 179, 215, 159, 161, 220, 177, 200, 195, 90, 65, 51, 183, 22, 79, 52, 92, 95, 2, 211, 179, 73, 189, 86, 68, 10, 1, 240, 196, 206, 76, 188, 183, 210, 49, 195, 239, 82, 27, 216, 92, 158, 211, 245, 243, 137, 218, 179, 199, 5, 181, 254, 173, 33, 68, 208, 88, 191, 55, 231, 12, 47, 248, 13, 21, 3, 101, 135, 17, 96, 127, 45, 213, 54, 13, 227, 73, 87, 58, 145, 62, 105, 58, 214, 122, 137, 236, 235, 50, 156, 122, 68, 151, 57, 19, 165, 214, 89, 123, 72, 109, 184, 207, 2, 247, 156, 185, 230, 79, 103, 30, 141, 31, 65, 235, 195, 36, 177, 34, 183, 72, 41, 52, 123, 161, 2, 124, 64, 97, 43, 164, 82, 125, 146, 77, 183, 60, 211, 32, 224, 230, 34, 98, 181, 38, 177, 192, 161, 9, 156, 49, 228, 200, 149, 230, 25, 21, 77, 201, 10, 137, 20, 97, 243, 33, 78, 180, 192, 9, 161, 125, 148, 190, 198, 96, 8, 50, 233, 113, 156, 66, 109, 68, 250, 189, 167, 76, 147, 142, 8, 59, 221, 160, 223, 236, 28, 160, 128, 42, 185, 190, 171, 208, 98, 190, 8, 31, 229, 129, 250, 103, 75, 206, 177, 161, 83, 168, 108, 37, 31, 45, 246, 224, 108, 42, 91, 47, 210, 119, 176, 181, 213, 128, 237, 185, 14, 169, 193, 217, 92, 104, 103, 187, 72, 27, 233, 14, 13, 245, 185, 21, 15, 230, 21, 241, 114, 11, 99, 238, 158, 6, 164, 11, 81, 214, 205, 203, 52, 69, 141, 136, 203, 72, 209, 245, 122, 46, 202, 66, 155, 195, 69, 242, 187, 71, 37, 190, 98, 233, 242, 78, 199, 164, 55, 124, 152, 15, 173, 104, 136, 212, 37, 71, 123, 216, 90, 121, 196, 106, 4, 177, 133, 213, 127, 195, 203, 37, 86, 78, 160, 4, 102, 28, 185, 134, 44, 67, 63, 87, 55, 52, 237, 109, 1, 104, 30, 214, 112, 40, 7, 1, 93, 42, 207, 4, 232, 248, 62, 189, 203, 48, 129, 153, 145, 146, 246, 38, 232, 45, 101, 106, 52, 225, 62, 234, 18, 226, 75, 93, 202, 91, 23, 104, 183, 173, 213, 70, 24, 234, 134, 123, 47, 43, 110, 92, 166, 118, 229, 179, 64, 223, 142, 108, 81, 235, 53, 63, 95, 31, 241, 75, 225, 199, 149, 169, 27, 193, 166, 147, 231, 205, 227, 170, 112, 207, 11, 148, 38, 215, 251, 46, 252, 80, 91, 2, 133, 99, 158, 83, 146, 46, 112, 185, 83, 75, 18, 60, 105, 215, 238, 161, 168, 128, 106, 130, 149, 102, 19, 214, 123, 8, 84, 51, 36, 122, 139, 89, 40, 234, 62, 111, 15, 108, 90, 102, 9, 145, 83, 144, 114, 169, 243, 52, 20, 94, 103, 90, 130, 78, 110, 52, 178, 159, 20, 159, 201, 213, 155, 15, 44, 52, 114, 66, 192, 245, 93, 98, 58, 125, 241, 121, 43, 208, 107, 36, 91, 251, 61, 179, 150, 173, 166, 187, 19, 175, 56, 42, 241, 204, 143, 135, 117, 225, 58, 185, 25, 175, 244, 52, 187, 212, 114, 185, 109, 96, 178, 136, 104, 164, 65, 166, 46, 235, 160, 14, 133, 188, 57, 146, 187, 12, 48, 119, 97, 30, 161, 226, 214, 137, 102, 33, 168, 80, 81, 41, 64, 214, 64, 154, 216, 110, 34, 217, 48, 196, 72, 172, 45, 55, 103, 79, 48, 9, 232, 98, 166, 195, 183, 101, 6, 109, 124, 123, 234, 216, 94, 33, 114, 215, 192, 17, 184, 128, 49, 7, 211, 94, 10, 65, 206, 200, 26, 53, 116, 81, 205, 34, 170, 218, 31, 15, 231, 55, 166, 60, 110, 247, 153, 89, 97, 12, 14, 176, 143, 223, 74, 32, 95, 107, 230, 193, 56, 54, 182, 10>>
RealKeys == [gms |-> GmsStream, ems |-> EmsStream, custom |-> CustomStream]
=======================
