------- MODULE KeyLong -------
\* generated from Aes.tla by tools/mkkeytab.sh
GmsStream == <<150, 174, 63, 164, 72, 250, 221, 144, 70, 118, 5, 97, 151, 206, 120, 104, 43, 160, 68, 143, 193, 86, 126, 50, 252, 225, 245, 179, 20, 20, 197, 34, 245, 195, 104, 46, 157, 195, 74, 11, 250, 254, 104, 69, 83, 138, 251, 93, 9, 79, 89, 252, 233, 17, 18, 155, 217, 15, 242, 232, 98, 105, 59, 118, 71, 136, 16, 117, 172, 227, 150, 215, 219, 18, 121, 205, 89, 228, 224, 12, 236, 161, 252, 210, 178, 60, 188, 74, 91, 157, 107, 169, 134, 41, 40, 130, 11, 67, 89, 64, 218, 231, 229, 147, 149, 223, 0, 2, 235, 138, 190, 12, 241, 16, 170, 91, 103, 148, 144, 244, 245, 206, 232, 225, 97, 9, 17, 9, 80, 226, 84, 76, 5, 73, 151, 136, 248, 240, 175, 21, 74, 108, 224, 14, 94, 192, 205, 171, 82, 32, 168, 46, 80, 100, 10, 26, 0, 62, 158, 233, 106, 208, 25, 181, 225, 142, 210, 49, 165, 67, 162, 40, 134, 245, 198, 125, 236, 33, 185, 52, 163, 15, 17, 226, 10, 5, 91, 182, 149, 13, 13, 93, 188, 168, 130, 126, 145, 254, 47, 232, 206, 238, 151, 222, 53, 217, 149, 66, 100, 97, 127, 171, 251, 255, 86, 182, 255, 191, 136, 154, 162, 145, 255, 2, 123, 208, 42, 86, 99, 12, 81, 40, 45, 183, 174, 177, 22, 80, 37, 66, 149, 126, 237, 159, 220, 137, 23, 161, 11, 59, 11, 57, 24, 155, 20, 38, 37, 7, 240, 111, 100, 43, 172, 67, 2, 226, 222, 84, 4, 163, 214, 225, 95, 25, 168, 105, 96, 203, 59, 137, 214, 255, 203, 152, 32, 63, 193, 84, 165, 131, 139, 133, 137, 132, 104, 119, 255, 57, 159, 85, 121, 98, 179, 222, 87, 239, 168, 20, 84, 90, 242, 11, 220, 192, 100, 117, 61, 145, 66, 161, 47, 193, 42, 30, 96, 225, 77, 56, 76, 203, 248, 169, 160, 145, 170, 164, 179, 112, 59, 233, 148, 16, 82, 63, 61, 210, 37, 172, 93, 247, 198, 154, 204, 128, 137, 80, 30, 33, 172, 130, 212, 71, 84, 139, 228, 71, 217, 41, 64, 153, 66, 123, 253, 219, 223, 211, 56, 87, 62, 72, 191, 132, 156, 44, 82, 178, 4, 109, 140, 18, 150, 58, 1, 216, 223, 186, 64, 89, 21, 206, 184, 42, 23, 172, 113, 52, 180, 241, 98, 102, 35, 188, 211, 217, 34, 74, 171, 152, 24, 58, 230, 84, 134, 156, 29, 45, 22, 54, 77, 118, 111, 182, 79, 16, 100, 113, 226, 159, 73, 65, 197, 203, 163, 110, 87, 129, 151, 150, 70, 179, 170, 234, 195, 33, 254, 255, 161, 83, 140, 129, 104, 246, 252, 103, 0, 106, 129, 123, 196, 70, 212, 241, 71, 234, 52, 166, 113, 197, 49, 36, 44, 189, 225, 83, 190, 170, 167, 184, 88, 201, 68, 29, 175, 107, 206, 81, 93, 84, 156, 184, 167, 8, 158, 89, 233, 157, 183, 161, 188, 122, 28, 122, 19, 228, 189, 15, 149, 239, 205, 96, 249, 224, 244, 102, 168, 0, 135, 192, 142, 38, 121, 88, 18, 29, 1, 61, 150, 126, 173, 166, 83, 190, 93, 65, 111, 2, 18, 167, 51, 104, 26, 215, 83, 80, 211, 221, 30, 11, 164, 137, 220, 116, 85, 221, 188, 136, 169, 39, 196, 54, 222, 85, 121, 10, 235, 108, 30, 147, 213, 88, 199, 69, 54, 44, 129, 150, 173, 14, 179, 48, 189, 195, 181, 237, 147, 227, 173, 97, 190, 21, 6, 183, 30, 195, 162, 238, 45, 131, 189, 3, 158, 240, 210, 209, 5, 32, 230, 14, 54, 159, 145, 20, 39, 83, 190, 34, 133, 138, 138, 12, 228, 229, 250, 131, 247, 184, 22, 121, 172, 105, 186, 60, 200, 88, 182, 7, 83, 229, 228, 142, 102, 35, 176, 47, 226, 73, 56, 253, 26, 41, 224, 170, 92, 68, 239, 248, 37, 215, 139, 82, 125, 160, 56, 173, 221, 247, 244, 177, 144, 152, 230, 44, 50, 34, 106, 93, 104, 129, 61, 200, 87, 60, 252, 26, 165, 129, 99, 60, 186, 0, 92, 196, 98, 70, 80, 218, 16, 45, 130, 201, 54, 105, 203, 27, 132, 5, 30, 171, 82, 195, 149, 33, 183, 198, 85, 210, 64, 244, 246, 10, 154, 52, 242, 54, 120, 193, 235, 108, 16, 83, 67, 185, 210, 162, 221, 233, 169, 56, 36, 81, 194, 57, 109, 193, 51, 202, 76, 192, 132, 78, 101, 65, 183, 65, 26, 140, 47, 229, 127, 135, 254, 122, 6, 185, 188, 40, 197, 91, 99, 253, 136, 195, 212, 34, 38, 154, 117, 57, 28, 93, 5, 37, 225, 255, 249, 216, 222, 91, 36, 90, 25, 248, 84, 101, 12, 34, 89, 230, 122, 29, 93, 181, 224, 211, 163, 147, 148, 235, 132, 127, 97, 60, 208, 189, 132, 139, 49, 173, 67, 156, 16, 249, 4, 85, 35, 16, 57, 168, 217, 211, 222, 84, 110, 167, 21, 70, 91, 83, 137, 131, 90, 28, 233, 210, 113, 13, 17, 57, 254, 101, 83, 56, 191, 87, 131, 9, 132, 126, 156, 248, 135, 45, 106, 223, 44, 183, 82, 79, 110, 150, 207, 84, 44, 127, 206, 182, 102, 172, 245, 19, 249, 128, 47, 116, 248, 23, 187, 150, 220, 207, 96, 218, 98, 75, 237, 178, 209, 33, 213, 13, 233, 241, 106, 198, 176, 165, 254, 55, 82, 244, 103, 176, 211, 63, 47, 155, 25, 158, 148, 155, 228, 120, 253, 218, 203, 223, 162, 104, 95, 191, 185, 133, 170, 111, 242, 10, 138, 185, 78, 54, 149, 34, 152, 165, 242, 33, 221, 240, 103, 21, 213, 135, 112, 4, 242, 215, 34, 40, 164, 39, 169, 29, 178, 128, 53, 206, 84, 36, 149, 128, 131, 199, 61, 186, 15, 4, 141, 0, 194, 113, 35, 92, 42, 23, 35, 181, 95, 77, 87, 36, 82, 225, 201, 72, 134, 99, 95, 202, 174, 52, 70, 14, 221, 84, 210, 117, 25, 41, 118, 109, 62, 255, 180, 201, 150, 27, 216, 97, 37, 216, 86, 76, 234, 127, 158, 118, 236, 21, 153, 70, 119, 128, 1, 63, 207, 235, 129, 214, 232, 120, 134, 240, 26, 43, 235, 81, 94, 176, 12, 181, 236, 242, 34, 127, 77, 141, 182, 233, 132, 121, 91, 135, 93, 36, 201, 17, 176, 253, 156, 52, 216, 158, 216, 247, 79, 70, 205, 25, 118, 10, 91, 112, 73, 98, 137, 86, 199, 29, 223, 222, 113, 33, 82, 21, 118, 9, 237, 46, 132, 68, 110, 228, 209, 183, 231, 111, 201, 118, 62, 127, 166, 142, 222, 125, 60, 79, 170, 112, 162, 133, 216, 195, 156, 187, 230, 254, 178, 132, 43, 93, 251, 103, 181, 29, 28, 15, 237, 121, 113, 226, 133, 146, 138, 202, 203, 45, 149, 240, 241, 6, 110, 218, 177, 197, 235, 123, 170, 107, 215, 175, 239, 74, 114, 30, 223, 171, 54, 32, 175, 228, 113, 176, 205, 122, 182, 163, 128, 221, 38, 210, 188, 140, 46, 248, 246, 229, 89, 127, 19, 97, 134, 6, 174, 248, 21, 89, 131, 9, 66, 210, 172, 226, 239, 253, 117, 119, 248, 108, 9, 26, 15, 237, 209, 174, 166, 80, 253, 248, 172, 224, 219, 197, 131, 91, 160, 171, 172, 34, 195, 153, 243, 141, 243, 166, 120, 251, 120, 51, 132, 225, 108, 108, 6, 235, 157, 202, 167, 157, 136, 240, 131, 145, 110, 217, 112, 13, 37, 80, 61, 11, 148, 247, 71, 8, 171, 61, 81, 204, 233, 239, 180, 16, 106, 237, 32, 149, 95, 230, 102, 43, 231, 37, 129, 251, 177, 163, 158, 145, 28, 239, 100, 32, 222, 130, 168, 230, 235, 183, 129, 90, 17, 134, 19, 171, 36, 104, 42, 230, 91, 24, 121, 118, 170, 229, 128, 248, 0, 182, 19, 65, 208, 34, 88, 215, 33, 35, 201, 152, 111, 92, 175, 22, 249, 31, 9, 40, 210, 56, 187, 5, 189, 172, 78, 55, 161, 138, 171, 97, 201, 195, 107, 114, 183, 45, 151, 87, 245, 235, 220, 170, 4, 103, 210, 93, 162, 207, 57, 170, 138, 3, 2, 191, 58, 69, 23, 111, 227, 155, 8, 245, 250, 110, 29, 236, 198, 104, 0, 156, 24, 119, 23, 198, 126, 7, 63, 6, 126, 140, 117, 171, 111, 30, 163, 65, 47, 83, 240, 175, 2, 90, 50, 74, 204, 171, 58, 10, 108, 123, 56, 26, 86, 209, 189, 237, 162, 138, 50, 197, 216, 63, 79, 135, 147, 76, 95, 111, 99, 114, 59, 140, 121, 98, 18, 254, 105, 245, 253, 128, 247, 158, 55, 57, 174, 64, 65, 68, 216, 9, 49, 17, 123, 206, 87, 39, 197, 32, 104, 180, 26, 28, 159, 108, 74, 210, 234, 139, 99, 255, 252, 36, 101, 180, 37, 7, 60, 120, 0, 201, 2, 45, 175, 233, 241, 93, 35, 19, 43, 247, 209, 82, 74, 209, 235, 157, 49, 101, 80, 252, 239, 87, 50, 119, 17, 201, 72, 109, 42, 137, 194, 231, 64, 122, 219, 120, 83, 221, 222, 102, 167, 16, 121, 104, 247, 76, 21, 19, 56, 184, 209, 253, 173, 88, 245, 41, 33, 242, 186, 112, 239, 72, 134, 33, 81, 8, 227, 215, 148, 20, 80, 59, 35, 0, 117, 19, 23, 228, 164, 202, 70, 81, 122, 118, 98, 252, 106, 169, 185, 111, 70, 4, 148, 219, 18, 214, 206, 195, 226, 159, 38, 70, 166, 172, 240, 45, 154, 148, 75, 103, 244, 99, 102, 20, 102, 175, 223, 244, 210, 15, 184, 156, 201, 106, 108, 97, 192, 27, 57, 248, 34, 95, 56, 144, 31, 135, 200, 214, 128, 139, 107, 63, 64, 254, 34, 194, 249, 12, 78, 86, 147, 107, 102, 231, 247, 162, 207, 91, 2, 40, 216, 214, 29, 79, 207, 233, 193, 189, 146, 17, 171, 250, 136, 50, 115, 191, 86, 41, 163, 3, 144, 35, 0, 233, 34, 120, 214, 93, 248, 48, 95, 110, 240, 208, 77, 49, 76, 63, 118, 129, 66, 117, 238, 6, 22, 245, 186, 122, 250, 17, 119, 228, 54, 63, 27, 124, 236, 5, 209, 123, 64, 122, 241, 209, 44, 3, 17, 67, 246, 136, 5, 192, 47, 2, 181, 189, 179, 100, 124, 69, 181, 246, 121, 197, 231, 132, 92, 42, 251, 149, 191, 80, 184, 147, 84, 213, 56, 176, 169, 60, 89, 75, 105, 174, 128, 107, 207, 57, 20, 5, 28, 72, 220, 135, 143, 77, 163, 170, 108, 12, 192, 99, 177, 84, 101, 83, 40, 121, 114, 100, 228, 47, 102, 0, 87, 87, 46, 230, 173, 86, 225, 230, 243, 17, 230, 121, 151, 65, 214, 33, 62, 149, 139, 172, 31, 101, 1, 229, 238, 51, 58, 33, 182, 27, 95, 156, 112, 150, 152, 210, 71, 13, 38, 140, 243, 193, 99, 43, 180, 187, 76, 174, 246, 53, 176, 208, 235, 82, 255, 212, 151, 253, 239, 83, 151, 34, 40, 17, 219, 249, 91, 225, 49, 253, 206, 172, 5, 199, 238, 253, 189, 250, 144, 29, 175, 34, 48, 94, 68, 244, 79, 242, 186, 35, 77, 116, 101, 211, 243, 52, 132, 69, 143, 145, 253, 41, 106, 189, 242, 101, 120, 36, 15, 163, 106, 72, 13, 177, 145, 23, 187, 183, 67, 70, 212, 235, 158, 147, 167, 120, 142, 81, 17, 55, 76, 70, 219, 66, 72, 135, 65, 248, 64, 173, 196, 189, 12, 18, 68, 172, 188, 92, 141, 75, 186, 144, 121, 12, 191, 37, 113, 164, 50, 146, 167, 252, 76, 37, 219, 113, 193, 14, 72, 8, 3, 97, 1, 46, 172, 64, 182, 210, 253, 38, 232, 212, 82, 23, 96, 5, 13, 153, 21, 127, 152, 133, 142, 57, 186, 49, 88, 143, 24, 106, 117, 190, 94, 253, 247, 118, 250, 9, 44, 99, 202, 46, 181, 99, 114, 227, 29, 188, 35, 198, 166, 39, 69, 101, 174, 233, 253, 152, 228, 65, 6, 113, 115, 5, 83, 104, 33, 7, 97, 109, 252, 165, 152, 219, 185, 33, 40, 91, 5, 17, 76, 110, 248, 141, 39, 12, 50, 224, 143, 227, 49, 148, 105, 216, 35, 200, 229, 43, 51, 16, 29, 49, 150, 91, 12, 151, 152, 149, 9, 38, 182, 49, 81, 88, 216, 60, 35, 224, 8, 17, 153, 120, 80, 190, 99, 81, 66, 95, 128, 253, 125, 44, 226, 77, 27, 255, 222, 16, 110, 167, 126, 173, 120, 62, 2, 28, 146, 202, 182, 174, 38, 111, 208, 95, 184, 218, 109, 103, 237, 27, 184, 175, 184, 254, 15, 14, 30, 4, 164, 218, 56, 5, 122, 42, 116, 24, 242, 235, 154, 127, 103, 52, 46, 239, 193, 41, 158, 62, 75, 93, 160, 56, 175, 28, 162, 197, 63, 135, 227, 62, 28, 36, 98, 196, 214, 122, 152, 164, 200, 161, 72, 38, 165, 4, 131, 243, 117, 144, 54, 177, 243, 147, 186, 75, 237, 13, 194, 172, 204, 198, 214, 156, 146, 23, 180, 122, 142, 213, 164, 233, 38, 240, 97, 112, 148, 255, 59, 70, 149, 171, 244, 122, 69, 137, 133, 82, 21, 149, 179, 112, 204, 114, 104, 126, 10, 219, 129, 224, 25, 205, 35, 138, 31, 122, 201, 151, 143, 86, 102, 220, 115, 30, 233, 227, 220, 143, 142, 251, 119, 197, 46, 93, 7, 202, 218, 144, 87, 127, 253, 115, 122, 190, 48, 24, 41, 230, 201, 170, 128, 40, 155, 252, 108, 5, 180, 94, 238, 145, 13, 8, 91, 227, 41, 218, 69, 181, 129, 136, 135, 25, 177, 173, 157, 228, 135, 70, 250, 181, 11, 41, 97, 52, 17, 191, 187, 175, 153, 41, 172, 87, 214, 73, 74, 49, 27, 13, 194, 168, 229, 156, 175, 81, 77, 245, 109, 168, 107, 58, 170, 114, 148, 81, 39, 207, 3, 68, 203, 134, 5, 144, 110, 31, 194, 101, 66, 64, 48, 217, 16, 162, 5, 172, 105, 111, 193, 27, 222, 186, 69, 118, 192, 248, 106, 178, 217, 148, 187, 63, 230, 208, 17, 79, 76, 185, 188, 139, 44, 0, 167, 125, 11, 144, 154, 48, 100, 252, 8, 149, 5, 16, 206, 203, 7, 137, 52, 85, 154, 91, 226, 37, 160, 19, 107, 199, 55, 6, 146, 190, 64, 160, 105, 102, 138, 168, 94, 91, 16, 173, 10, 209, 203, 214, 30, 207, 64, 146, 99, 100, 32, 96, 94, 61, 234, 55, 233, 20, 30, 71, 194, 115, 252, 79, 228, 114, 25, 158, 90, 52, 207, 19, 1, 97, 186, 32, 49, 1, 201, 239, 97, 96, 42, 92, 86, 69, 160, 81, 139, 236, 78, 18, 199, 229, 47, 47, 147, 82, 154, 93, 137, 128, 230, 228, 244, 163, 23, 159, 96, 86, 206, 173, 43, 138, 52, 252, 165, 10, 254, 46, 9, 199, 198, 157, 244, 209, 131, 252, 224, 61, 119, 53, 244, 145, 234, 115, 134, 118, 245, 133, 20, 35, 12, 97, 65, 76, 141, 198, 242, 74, 171, 173, 32, 221, 79, 159, 138, 6, 207, 189, 220, 20, 60, 200, 136, 19, 192, 11, 131, 74, 147, 215, 143, 3, 28, 10, 102, 151, 5, 191, 235, 170, 68, 213, 231, 78, 31, 57, 208, 205, 85, 34, 122, 27, 104, 164, 166, 4, 82, 89, 136, 122, 55, 74, 159, 42, 27, 144, 101, 180, 102, 236, 177, 216, 232, 116, 125, 178, 43, 104, 218, 237, 117, 33, 119, 66, 227, 113, 42, 221, 215, 25, 195, 58, 239, 19, 72, 202, 63, 26, 151, 190, 167, 194, 28, 135, 106, 116, 216, 255, 134, 93, 187, 246, 226, 153, 174, 237, 146, 174, 115, 236, 180, 206, 215, 233, 92, 234, 12, 132, 142, 74, 6, 236, 76, 243, 88, 69, 167, 20, 23, 255, 211, 17, 201, 111, 27, 4, 90, 254, 82, 114, 33, 18, 236, 131, 123, 33, 139, 85, 154, 49, 71, 146, 116, 12, 110, 206, 119, 124, 59, 155, 166, 120, 151, 43, 111, 101, 97, 10, 222, 153, 6, 91, 243, 182, 217, 171, 118, 111, 166, 74, 4, 118, 124, 226, 97, 125, 147, 251, 98, 60, 84, 175, 126, 13, 106, 11, 213, 106, 26, 41, 205, 167, 235, 219, 170, 21, 166, 102, 153, 195, 152, 206, 101, 112, 208, 35, 131, 181, 125, 10, 219, 159, 249, 142, 181, 8, 184, 87, 92, 234, 247, 254, 5, 31, 9, 199, 186, 127, 188, 197, 47, 171, 36, 179, 250, 206, 225, 229, 23, 9, 74, 13, 186, 58, 56, 172, 159, 158, 25, 165, 224, 243, 205, 51, 137, 252, 226, 107, 218, 199, 253, 99, 1, 65, 11, 65, 162, 198, 169, 193, 171, 134, 235, 147, 60, 230, 255, 94, 48, 49, 194, 9, 164, 125, 157, 11, 224, 98, 215, 14, 106, 25, 84, 101, 160, 194, 161, 140, 147, 103, 248, 150, 102, 203, 112, 117, 1, 190, 76, 228, 8, 200, 255, 242, 228, 12, 183, 47, 229, 167, 224, 157, 150, 89, 106, 61, 64, 53, 106, 27, 181, 173, 156, 209, 248, 65, 20, 104, 238, 205, 23, 249, 190, 246, 116, 93, 8, 5, 17, 91, 86, 118, 186, 71, 177, 194, 15, 230, 216, 77, 71, 148, 164, 122, 192, 86, 192, 248, 24, 51, 221, 184, 191, 219, 151, 67, 100, 65, 164, 59, 82, 240, 196, 181, 20, 230, 142, 231, 63, 31, 123, 48, 182, 134, 178, 12, 117, 72, 214, 177, 222, 66, 104, 7, 205, 225, 106, 240, 255, 43, 19, 27, 154, 167, 170, 220, 202, 43, 99, 15, 147, 181, 82, 115, 78, 38, 116, 129, 57, 102, 206, 104, 106, 192, 107, 23, 178, 62, 10, 101, 120, 111, 71, 241, 169, 94, 91, 179, 108, 71, 68, 141, 205, 12, 183, 148, 176, 78, 53, 26, 196, 156, 245, 172, 10, 87, 150, 150, 198, 37, 88, 82, 38, 160, 68, 65, 192, 89, 191, 57, 141, 219, 227, 64, 215, 18, 12, 50, 133, 43, 22, 194, 141, 157, 255, 69, 188, 57, 27, 175, 164, 167, 246, 52, 42, 50, 251, 102, 119, 92, 223, 50, 57, 88, 71, 221, 254, 88, 4, 134, 106, 237, 221, 221, 124, 171, 159, 33, 35, 150, 139, 194, 161, 118, 173, 124, 33, 214, 173, 118, 32, 228, 157, 73, 88, 191, 38, 172, 96, 160, 16, 161, 104, 172, 70, 243, 87, 141, 116, 4, 208, 49, 237, 219, 17, 69, 158, 213, 239, 111, 20, 52, 178, 178, 209, 147, 166, 154, 196, 179, 151, 211, 176, 106, 233, 70, 105, 199, 188, 84, 198, 120, 132, 243, 149, 143, 93, 222, 170, 116, 64, 81, 29, 1, 157, 102, 63, 67, 76, 222, 175, 48, 66, 90, 38, 130, 85, 118, 76, 126, 171, 251, 151, 187, 83, 194, 44, 70, 240, 113, 156, 222, 141, 29, 124, 212, 0, 251, 244, 42, 21, 205, 119, 94, 88, 246, 238, 243, 66, 82, 8, 139, 80, 70, 198, 225, 116, 137, 48, 157, 110, 3, 215, 44, 11, 22, 32, 245, 197, 197, 190, 8, 244, 73, 120, 239, 135, 211, 114, 215, 22, 86, 140, 115, 72, 1, 119, 165, 152, 220, 90, 157, 182, 145, 118, 61, 6, 100, 34, 4, 212, 169, 174, 101, 228, 30, 200, 142, 195, 178, 231, 203, 104, 134, 112, 57, 78, 57, 184, 174, 239, 134, 169, 122, 224, 111, 177, 248, 171, 243, 255, 124, 89, 101, 180, 173, 245, 61, 142, 87, 210, 86, 15, 210, 188, 75, 182, 80, 59, 240, 200, 156, 202, 6, 79, 194, 140, 19, 154, 179, 255, 56, 216, 27, 51, 128, 209, 168, 235, 173, 36, 215, 203, 223, 189, 42, 124, 74, 204, 229, 106, 114, 252, 139, 243, 230, 59, 136, 138, 163, 102, 95, 117, 108, 81, 182, 144, 81, 137, 180, 162, 68, 151, 85, 91, 216, 48, 198, 244, 17, 117, 60, 222, 133, 73, 26, 58, 251, 191, 131, 161, 52, 62, 225, 150, 52, 192, 226, 9, 144, 104, 116, 216, 169, 14, 138, 131, 128, 206, 208, 249, 249, 185, 61, 1, 28, 20, 89, 195, 157, 90, 59, 219, 30, 18, 225, 158, 73, 93, 2, 154, 33, 86, 123, 60, 57, 147, 49, 103, 129, 181, 198, 145, 101, 130, 148, 236, 146, 111, 15, 99, 28, 131, 45, 129, 145, 72, 118, 18, 218, 99, 139, 187, 88, 75, 104, 222, 209, 101, 244, 181, 206, 43, 170, 180, 213, 149, 114, 17, 206, 67, 246, 113, 250, 163, 68, 67, 123, 23, 226, 239, 128, 159, 228, 0, 24, 134, 15, 230, 20, 112, 122, 102, 158, 26, 6, 11, 96, 138, 187, 246, 128, 118, 126, 123, 233, 183, 79, 39, 145, 154, 150, 181, 45, 107, 23, 162, 122, 183, 202, 114, 67, 187, 69, 153, 48, 92, 148, 210, 70, 187, 92, 138, 73, 183, 205, 39, 205, 120, 121, 94, 249, 16, 8, 99, 61, 57, 89, 244, 224, 100, 49, 45, 122, 252, 71, 202, 255, 37, 231, 203, 121, 174, 100, 168, 222, 87, 100, 149, 225, 88, 120, 198, 129, 74, 184, 133, 161, 44, 238, 221, 40, 67, 215, 78, 111, 111, 196, 164, 156, 92, 59, 166, 99, 223, 182, 105, 68, 68, 105, 119, 98, 229, 120, 19, 224, 87, 104, 135, 168, 248, 103, 0, 219, 99, 240, 23, 130, 15, 12, 45, 193, 173, 105, 233, 53, 128, 236, 127, 211, 57, 78, 247, 58, 238, 46, 86, 45, 12, 124, 3, 146, 51, 236, 217, 119, 99, 254, 20, 29, 109, 69, 101, 34, 225, 216, 215, 77, 188, 220, 210, 55, 148, 68, 249, 157, 234, 197, 235, 151, 130, 140, 23, 157, 124, 90, 236, 19, 93, 136, 60, 185, 126, 85, 246, 33, 202, 197, 83, 194, 198, 103, 199, 163, 1, 207, 122, 181, 185, 112, 216, 62, 229, 241, 211, 124, 20, 227, 219, 67, 32, 140, 73, 98, 16, 231, 181, 219, 88, 22, 92, 228, 230, 42, 100, 24, 154, 75, 249, 16, 140, 21, 151, 230, 220, 138, 101, 211, 68, 113, 71, 125, 252, 33, 208, 214, 168, 49, 115, 31, 51, 22, 246, 130, 252, 167, 236, 25, 179, 218, 134, 244, 6, 121, 175, 149, 229, 139, 46, 253, 22, 148, 164, 136, 195, 15, 53, 241, 109, 48, 31, 115, 26, 217, 126, 224, 219, 151, 28, 194, 181, 65, 246, 160, 132, 3, 241, 52, 167, 59, 142, 54, 226, 203, 118, 186, 73, 136, 233, 82, 158, 119, 113, 63, 19, 62, 206, 250, 247, 99, 50, 230, 142, 2, 207, 199, 186, 51, 135, 102, 84, 130, 14, 162, 117, 38, 159, 207, 57, 10, 69, 128, 184, 74, 148, 189, 170, 154, 211, 62, 110, 36, 128, 24, 37, 33, 157, 24, 238, 204, 140, 143, 192, 247, 98, 55, 66, 171, 115, 30, 221, 102, 161, 252, 202, 234, 236, 177, 6, 1, 8, 14, 228, 149, 29, 186, 232, 204, 77, 255, 98, 148, 107, 132, 115, 47, 193, 88, 247, 205, 221, 6, 186, 108, 231, 107, 21, 207, 161, 27, 158, 240, 232, 138, 118, 95, 238, 71, 49, 90, 7, 104, 250, 172, 89, 81, 219, 9, 255, 137, 65, 114, 179, 171, 148, 152, 220, 110, 182, 26, 213, 61, 130, 218, 225, 175, 50, 228, 83, 196, 50, 136, 235, 234, 77, 134, 158, 224, 79, 120, 248, 144, 204, 43, 188, 182, 252, 159, 21, 223, 71, 158, 210, 19, 25, 56, 230, 206, 206, 255, 80, 160, 19, 9, 113, 174, 247, 63, 217, 33, 35, 211, 14, 55, 197, 171, 205, 4, 251, 132, 218, 122, 187, 21, 217, 96, 55, 101, 54, 65, 87, 254, 45, 212, 130, 31, 6, 59, 123, 180, 139, 214, 93, 17, 89, 19, 98, 46, 29, 63, 80, 240, 104, 204, 130, 59, 76, 209, 155, 56, 218, 128, 135, 196, 60, 71, 29, 3, 65, 55, 61, 207, 176, 190, 83, 178, 135, 51, 103, 95, 82, 68, 9, 52, 111, 49, 154, 203, 141, 95, 1, 97, 108, 67, 49, 135, 138, 245, 207, 31, 200, 39, 230, 237, 202, 179, 107, 112, 34, 65, 189, 95, 176, 216, 167, 95, 240, 68, 7, 240, 207, 235, 33, 135, 1, 213, 172, 65, 235, 137, 248, 89, 225, 255, 211, 249, 92, 118, 205, 231, 123, 130, 68, 238, 14, 69, 136, 202, 235, 91, 183, 165, 207, 32, 226, 27, 95, 229, 113, 67, 158, 152, 80, 60, 39, 39, 168, 49, 55, 70, 2, 252, 218, 228, 235, 112, 194, 35, 38, 186, 183, 150, 1, 230, 224, 6, 68, 160, 77, 173, 79, 114, 85, 242, 78, 237, 243, 221, 149, 219, 222, 225, 3, 142, 81, 154, 90, 84, 208, 80, 54, 186, 49, 104, 22, 28, 213, 164, 0, 117, 204, 215, 132, 28, 185, 119, 131, 59, 43, 87, 39, 222, 131, 175, 93, 225, 17, 254, 100, 88, 39, 201, 92, 68, 178, 198, 133, 234, 247, 66, 245, 89, 202, 179, 104, 1, 141, 90, 167, 177, 78, 94, 166, 223, 45, 145, 44, 48, 175, 80, 48, 251, 133, 43, 122, 52, 54, 18, 111, 50, 132, 104, 184, 52, 8, 146, 204, 179, 185, 147, 96, 226, 102, 85, 209, 160, 248, 199, 251, 48, 54, 156, 235, 64, 211, 31, 80, 80, 251, 219, 8, 57, 255, 146, 7, 87, 142, 235, 157, 211, 122, 143, 122, 71, 239, 115, 189, 87, 15, 73, 99, 133, 120, 160, 8, 85, 85, 55, 178, 195, 6, 250, 38, 138, 232, 35, 21, 177, 92, 76, 140, 248, 109, 45, 231, 135, 245, 93, 36, 160, 132, 115, 128, 45, 54, 182, 104, 100, 219, 50, 134, 154, 129, 36, 67, 116, 215, 76, 209, 129, 20, 202, 125, 241, 160, 87, 210, 101, 77, 219, 55, 94, 85, 21, 244, 113, 255, 88, 16, 51, 158, 104, 149, 74, 182, 171, 20, 100, 110, 202, 247, 205, 181, 94, 23, 158, 59, 7, 198, 116, 25, 122, 127, 251, 240, 100, 105, 151, 234, 56, 23, 79, 193, 162, 82, 173, 59, 66, 133, 75, 66, 49, 252, 103, 222, 221, 68, 113, 194, 143, 212, 235, 2, 66, 107, 227, 109, 255, 225, 191, 151, 165, 55, 183, 248, 206, 184, 32, 78, 194, 112, 24, 119, 104, 237, 78, 173, 188, 80, 250, 154, 144, 18, 9, 182, 78, 185, 136, 116, 65, 122, 122, 243, 255, 121, 240, 142, 5, 141, 192, 137, 131, 17, 115, 88, 221, 39, 19, 229, 157, 244, 4, 255, 104, 170, 61, 115, 91, 203, 185, 42, 141, 114, 247, 146, 77, 28, 116, 160, 209, 37, 73, 163, 178, 111, 54, 125, 124, 87, 80, 45, 30, 162, 90, 245, 91, 184, 118, 235, 16, 23, 247, 1, 61, 48, 193, 179, 100, 107, 149, 161, 94, 167, 153, 78, 231, 109, 100, 99, 51, 71, 139, 8, 70, 79, 238, 27, 182, 0, 53, 163, 195, 165, 226, 197, 129, 250, 28, 18, 160, 194, 160, 66, 131, 120, 100, 156, 133, 36, 170, 63, 135, 169, 237, 173, 84, 254, 76, 158, 46, 180, 208, 90, 207, 203, 226, 150, 232, 134, 78, 215, 169, 0, 104, 89, 151, 111, 116, 129, 229, 182, 193, 164, 49, 113, 9, 191, 86, 17, 177, 236, 79, 121, 163, 159, 16>>
EmsStream == <<171, 101, 73, 5, 103, 205, 87, 10, 152, 123, 135, 10, 236, 101, 7, 139, 149, 116, 54, 108, 179, 89, 41, 94, 162, 89, 3, 126, 191, 125, 203, 116, 144, 83, 38, 148, 24, 111, 97, 135, 208, 214, 121, 30, 172, 82, 233, 82, 130, 122, 30, 232, 6, 144, 239, 75, 3, 255, 211, 243, 112, 74, 57, 211, 22, 153, 184, 17, 148, 28, 129, 31, 253, 226, 241, 55, 106, 75, 183, 250, 81, 208, 13, 110, 172, 170, 228, 110, 42, 252, 194, 223, 64, 79, 247, 243, 48, 207, 200, 236, 7, 48, 253, 169, 0, 1, 230, 128, 169, 197, 87, 22, 176, 151, 135, 164, 90, 205, 152, 215, 153, 111, 188, 98, 99, 235, 213, 212, 19, 243, 77, 67, 138, 0, 71, 119, 209, 65, 91, 192, 123, 43, 249, 182, 247, 58, 9, 208, 24, 147, 155, 21, 96, 246, 111, 248, 83, 239, 50, 129, 151, 78, 41, 207, 104, 95, 195, 45, 238, 223, 149, 215, 103, 68, 64, 151, 146, 235, 145, 233, 124, 176, 66, 249, 64, 224, 163, 250, 195, 97, 110, 194, 103, 59, 249, 198, 145, 251, 40, 196, 55, 134, 61, 92, 137, 163, 36, 14, 252, 104, 23, 183, 55, 73, 28, 11, 88, 246, 127, 122, 75, 194, 248, 124, 170, 149, 21, 194, 198, 38, 113, 212, 157, 188, 73, 8, 81, 53, 13, 214, 147, 97, 186, 101, 124, 67, 233, 208, 192, 8, 46, 120, 92, 10, 190, 153, 117, 202, 42, 71, 71, 237, 208, 178, 217, 41, 79, 50, 186, 85, 42, 187, 172, 71, 228, 212, 134, 48, 202, 199, 128, 211, 247, 31, 18, 220, 195, 111, 6, 236, 138, 141, 31, 138, 62, 104, 219, 215, 147, 254, 39, 154, 143, 145, 19, 184, 41, 210, 201, 127, 180, 208, 255, 113, 255, 236, 232, 176, 57, 218, 173, 148, 198, 38, 247, 62, 72, 252, 142, 224, 3, 227, 24, 162, 107, 168, 107, 212, 215, 166, 106, 209, 2, 79, 11, 231, 227, 225, 51, 19, 42, 90, 194, 79, 32, 146, 255, 247, 217, 33, 3, 202, 104, 61, 185, 141, 121, 220, 118, 113, 182, 176, 208, 89, 59, 183, 223, 167, 247, 235, 109, 174, 151, 160, 126, 95, 158, 51, 31, 141, 81, 88, 162, 247, 141, 255, 149, 49, 110, 40, 84, 220, 1, 84, 246, 194, 171, 172, 27, 183, 105, 137, 0, 27, 145, 84, 198, 244, 187, 122, 105, 210, 45, 243, 76, 35, 174, 186, 175, 122, 157, 227, 14, 63, 61, 75, 119, 50, 20, 217, 182, 59, 200, 199, 6, 3, 218, 0, 218, 175, 171, 89, 84, 237, 29, 249, 77, 94, 28, 17, 43, 192, 124, 98, 74, 100, 84, 92, 78, 173, 16, 147, 141, 35, 211, 167, 241, 229, 162, 70, 11, 4, 155, 185, 62, 241, 43, 53, 111, 49, 83, 103, 123, 9, 215, 229, 132, 129, 149, 227, 106, 222, 132, 164, 234, 215, 231, 193, 37, 202, 231, 169, 163, 30, 203, 114, 120, 37, 215, 131, 130, 72, 66, 122, 88, 245, 148, 134, 130, 25, 25, 218, 218, 131, 14, 170, 71, 87, 122, 59, 68, 186, 140, 210, 62, 171, 98, 144, 237, 234, 216, 230, 217, 114, 117, 147, 219, 195, 246, 118, 161, 168, 92, 100, 63, 252, 109, 22, 230, 111, 67, 90, 20, 218, 219, 131, 175, 212, 205, 87, 121, 54, 106, 26, 21, 217, 154, 222, 253, 174, 227, 105, 254, 69, 10, 175, 61, 182, 57, 84, 57, 92, 118, 206, 196, 40, 104, 57, 82, 211, 115, 50, 248, 134, 187, 150, 14, 221, 40, 113, 56, 251, 240, 237, 38, 13, 137, 224, 14, 225, 102, 123, 124, 141, 52, 28, 79, 66, 27, 47, 246, 252, 41, 28, 218, 75, 6, 140, 104, 49, 179, 77, 19, 81, 214, 89, 123, 32, 91, 9, 88, 162, 178, 67, 110, 126, 5, 181, 53, 122, 217, 78, 110, 162, 54, 253, 127, 211, 0, 144, 244, 252, 6, 248, 216, 31, 109, 87, 124, 214, 188, 43, 197, 122, 108, 10, 68, 214, 65, 150, 150, 40, 7, 102, 204, 187, 175, 59, 0, 201, 127, 6, 248, 217, 8, 50, 243, 241, 146, 169, 165, 152, 103, 107, 253, 133, 54, 36, 167, 209, 196, 179, 216, 45, 161, 87, 7, 53, 24, 28, 98, 183, 63, 34, 135, 19, 5, 166, 139, 23, 175, 177, 132, 54, 146, 13, 138, 136, 179, 141, 140, 163, 27, 181, 171, 47, 142, 98, 242, 115, 16, 236, 19, 33, 123, 199, 113, 96, 164, 108, 251, 240, 146, 132, 59, 68, 114, 247, 86, 81, 8, 67, 109, 129, 70, 149, 58, 8, 46, 82, 242, 180, 211, 80, 93, 147, 165, 154, 194, 225, 91, 173, 60, 10, 250, 156, 125, 52, 222, 103, 218, 3, 18, 159, 172, 162, 0, 73, 122, 115, 10, 253, 93, 180, 67, 164, 5, 181, 204, 244, 9, 52, 81, 116, 17, 232, 82, 160, 36, 74, 219, 142, 67, 27, 42, 225, 149, 64, 155, 17, 141, 23, 38, 68, 81, 168, 46, 105, 207, 171, 146, 237, 187, 161, 87, 145, 171, 70, 195, 59, 124, 68, 200, 146, 193, 172, 77, 27, 79, 65, 73, 219, 163, 47, 252, 26, 111, 109, 41, 251, 160, 106, 132, 218, 157, 122, 35, 21, 12, 115, 97, 115, 125, 124, 34, 38, 163, 100, 188, 20, 24, 170, 178, 15, 191, 23, 65, 136, 30, 128, 126, 173, 133, 21, 214, 101, 251, 170, 190, 87, 129, 201, 252, 45, 118, 126, 35, 98, 116, 29, 172, 48, 142, 212, 234, 163, 211, 158, 139, 146, 29, 56, 24, 144, 195, 242, 170, 218, 11, 197, 120, 187, 24, 223, 143, 25, 68, 130, 11, 60, 236, 79, 189, 140, 76, 23, 64, 111, 207, 179, 15, 118, 150, 175, 186, 150, 215, 105, 17, 213, 48, 107, 6, 154, 16, 133, 2, 104, 22, 53, 225, 182, 181, 134, 190, 35, 9, 55, 107, 0, 252, 217, 37, 148, 57, 151, 108, 22, 64, 65, 207, 212, 135, 111, 177, 139, 26, 12, 188, 253, 141, 215, 245, 115, 141, 158, 112, 30, 55, 42, 192, 188, 88, 179, 7, 65, 192, 224, 42, 198, 43, 234, 132, 29, 127, 130, 29, 184, 11, 2, 51, 180, 176, 12, 131, 55, 148, 221, 200, 169, 200, 28, 210, 53, 160, 163, 101, 197, 241, 234, 165, 98, 112, 33, 62, 50, 197, 187, 25, 100, 58, 239, 87, 61, 141, 161, 26, 188, 199, 101, 221, 147, 29, 116, 148, 49, 62, 196, 184, 46, 61, 35, 169, 73, 104, 240, 100, 46, 19, 83, 14, 244, 232, 31, 190, 113, 48, 93, 64, 182, 112, 155, 226, 213, 23, 255, 86, 153, 12, 151, 157, 187, 190, 174, 111, 168, 157, 242, 145, 8, 205, 183, 127, 207, 58, 93, 214, 209, 250, 197, 209, 153, 153, 81, 45, 128, 5, 170, 99, 75, 39, 116, 116, 90, 157, 219, 236, 212, 198, 37, 225, 213, 96, 242, 55, 151, 215, 13, 43, 163, 53, 109, 242, 160, 0, 70, 95, 20, 105, 89, 100, 157, 80, 116, 88, 86, 46, 246, 23, 225, 138, 133, 126, 197, 246, 179, 96, 84, 2, 211, 250, 201, 255, 92, 131, 171, 40, 83, 152, 161, 155, 214, 160, 112, 141, 63, 231, 100, 218, 56, 141, 253, 190, 31, 182, 193, 164, 5, 119, 68, 206, 94, 239, 207, 127, 84, 228, 143, 109, 7, 20, 102, 55, 55, 11, 2, 86, 72, 254, 136, 15, 33, 15, 150, 63, 59, 62, 85, 124, 123, 248, 206, 208, 126, 166, 152, 118, 24, 120, 11, 242, 31, 67, 91, 119, 123, 107, 149, 225, 60, 77, 127, 173, 115, 104, 100, 189, 176, 96, 114, 17, 239, 204, 136, 45, 120, 28, 149, 19, 7, 178, 138, 23, 172, 32, 79, 81, 37, 17, 193, 153, 79, 9, 13, 74, 145, 66, 171, 230, 236, 135, 109, 169, 224, 214, 129, 230, 43, 223, 135, 198, 0, 206, 165, 26, 23, 76, 62, 116, 83, 63, 70, 240, 7, 180, 118, 71, 224, 93, 185, 95, 119, 87, 234, 198, 119, 52, 100, 173, 96, 172, 252, 62, 180, 137, 26, 61, 123, 53, 107, 83, 123, 130, 181, 177, 35, 6, 188, 87, 76, 86, 197, 104, 11, 212, 228, 187, 91, 179, 151, 195, 211, 181, 199, 122, 115, 13, 210, 2, 217, 110, 83, 251, 11, 48, 170, 48, 158, 64, 135, 31, 101, 225, 142, 73, 169, 126, 5, 133, 238, 225, 248, 123, 221, 157, 152, 36, 23, 25, 89, 152, 62, 135, 112, 252, 40, 41, 91, 1, 125, 132, 68, 179, 23, 7, 116, 231, 179, 0, 45, 212, 206, 238, 172, 187, 28, 178, 89, 231, 104, 97, 123, 138, 161, 70, 46, 72, 209, 60, 240, 89, 80, 188, 199, 248, 110, 110, 204, 120, 148, 251, 53, 30, 237, 120, 250, 140, 114, 113, 4, 185, 186, 53, 197, 78, 88, 17, 248, 63, 184, 95, 232, 249, 205, 9, 92, 113, 200, 170, 5, 51, 212, 242, 8, 93, 221, 217, 21, 148, 250, 87, 222, 9, 254, 235, 171, 111, 211, 210, 166, 176, 124, 70, 156, 8, 168, 210, 85, 124, 40, 47, 254, 237, 41, 181, 212, 219, 124, 0, 240, 207, 15, 13, 78, 214, 77, 112, 43, 12, 104, 151, 59, 81, 6, 246, 149, 181, 175, 188, 37, 113, 126, 205, 186, 115, 180, 38, 231, 141, 181, 1, 108, 103, 89, 227, 173, 115, 106, 180, 1, 187, 137, 175, 203, 244, 201, 196, 136, 231, 8, 116, 168, 210, 29, 120, 205, 129, 23, 225, 4, 120, 114, 182, 223, 151, 28, 206, 60, 46, 49, 90, 66, 97, 18, 255, 14, 160, 157, 48, 128, 140, 206, 210, 210, 127, 158, 171, 251, 97, 86, 144, 49, 28, 117, 148, 33, 89, 238, 241, 18, 204, 55, 149, 166, 147, 31, 54, 30, 130, 198, 238, 212, 33, 147, 177, 9, 1, 50, 202, 138, 241, 221, 196, 141, 74, 212, 226, 101, 214, 251, 110, 95, 233, 143, 143, 6, 200, 39, 165, 204, 140, 63, 217, 215, 226, 152, 23, 127, 228, 140, 209, 43, 211, 31, 134, 29, 164, 127, 193, 134, 82, 196, 113, 196, 209, 164, 214, 34, 157, 116, 154, 19, 22, 46, 231, 31, 75, 56, 224, 254, 248, 198, 51, 29, 76, 136, 53, 141, 16, 161, 160, 38, 2, 23, 168, 217, 146, 121, 73, 89, 28, 241, 136, 93, 4, 117, 0, 92, 80, 231, 73, 217, 241, 218, 15, 136, 107, 110, 51, 204, 164, 81, 38, 92, 40, 120, 173, 213, 191, 104, 53, 204, 213, 213, 42, 122, 177, 195, 156, 8, 126, 22, 195, 1, 237, 253, 131, 233, 184, 102, 35, 199, 66, 104, 219, 118, 219, 9, 158, 121, 185, 121, 184, 116, 6, 171, 94, 203, 158, 73, 255, 66, 26, 145, 68, 198, 76, 95, 64, 69, 222, 227, 189, 228, 101, 33, 128, 45, 209, 43, 240, 172, 131, 19, 157, 58, 144, 19, 157, 213, 130, 116, 69, 222, 74, 227, 95, 232, 6, 198, 208, 192, 65, 60, 226, 179, 31, 115, 86, 223, 238, 175, 247, 70, 23, 193, 241, 121, 0, 86, 3, 204, 179, 122, 181, 92, 41, 209, 199, 250, 231, 22, 0, 129, 86, 176, 135, 7, 87, 36, 236, 148, 200, 198, 235, 172, 230, 213, 5, 189, 26, 158, 220, 160, 108, 126, 212, 59, 127, 60, 237, 201, 67, 122, 24, 94, 67, 2, 72, 41, 162, 250, 90, 84, 98, 44, 190, 177, 67, 149, 250, 7, 39, 101, 163, 138, 131, 255, 117, 123, 46, 52, 21, 71, 201, 206, 196, 66, 252, 205, 239, 220, 135, 40, 155, 94, 126, 211, 96, 126, 6, 57, 234, 88, 157, 237, 102, 9, 179, 214, 63, 62, 231, 15, 216, 41, 188, 76, 53, 245, 250, 27, 51, 81, 91, 40, 211, 133, 175, 4, 251, 95, 139, 126, 26, 76, 32, 133, 145, 42, 134, 233, 140, 216, 189, 158, 137, 213, 253, 82, 43, 9, 229, 49, 181, 28, 193, 90, 253, 187, 135, 25, 198, 21, 206, 47, 183, 246, 186, 175, 173, 250, 232, 111, 145, 86, 224, 245, 223, 47, 219, 101, 82, 92, 230, 207, 237, 42, 194, 80, 20, 1, 251, 186, 58, 141, 37, 99, 227, 2, 80, 11, 173, 225, 63, 8, 128, 87, 219, 105, 87, 104, 119, 133, 88, 67, 98, 185, 25, 217, 103, 205, 186, 5, 222, 215, 201, 129, 38, 36, 226, 246, 172, 125, 182, 83, 73, 162, 201, 222, 77, 186, 245, 207, 134, 133, 80, 42, 18, 155, 22, 162, 133, 97, 17, 183, 18, 243, 66, 213, 139, 73, 31, 92, 203, 235, 14, 144, 205, 22, 91, 187, 177, 85, 119, 91, 235, 150, 9, 8, 83, 92, 51, 89, 22, 116, 93, 148, 141, 188, 237, 126, 107, 224, 44, 207, 162, 150, 243, 0, 192, 7, 117, 180, 143, 105, 158, 28, 35, 130, 5, 77, 126, 75, 4, 145, 147, 13, 130, 8, 241, 2, 35, 254, 232, 240, 240, 153, 7, 197, 11, 210, 197, 3, 92, 235, 35, 213, 145, 243, 29, 96, 99, 92, 242, 207, 73, 239, 189, 164, 208, 194, 79, 135, 216, 51, 151, 207, 226, 210, 135, 161, 207, 143, 12, 74, 165, 177, 218, 151, 165, 60, 170, 232, 237, 174, 8, 198, 7, 156, 196, 155, 243, 221, 33, 32, 22, 2, 6, 23, 17, 69, 212, 22, 241, 231, 162, 208, 76, 67, 12, 22, 225, 223, 124, 73, 26, 151, 5, 202, 247, 93, 254, 175, 98, 209, 132, 232, 252, 28, 175, 159, 120, 237, 45, 196, 199, 157, 168, 112, 251, 27, 52, 101, 120, 3, 189, 198, 225, 46, 118, 40, 129, 61, 1, 154, 219, 230, 9, 242, 234, 55, 114, 133, 105, 81, 42, 204, 148, 42, 232, 166, 165, 75, 248, 212, 191, 33, 65, 160, 155, 212, 161, 192, 204, 143, 173, 251, 139, 29, 119, 5, 43, 171, 1, 72, 56, 70, 55, 27, 194, 1, 55, 69, 72, 117, 42, 205, 55, 165, 178, 180, 166, 33, 215, 197, 72, 26, 82, 139, 253, 244, 232, 178, 7, 183, 117, 233, 159, 156, 104, 36, 186, 200, 20, 30, 62, 248, 59, 151, 28, 232, 116, 145, 107, 6, 112, 196, 90, 53, 84, 43, 140, 187, 139, 95, 66, 129, 18, 218, 128, 126, 83, 76, 193, 163, 154, 149, 222, 170, 5, 166, 169, 111, 229, 59, 18, 60, 212, 52, 22, 102, 183, 9, 60, 49, 232, 143, 169, 10, 34, 13, 112, 252, 40, 214, 81, 68, 228, 85, 158, 1, 43, 234, 29, 65, 89, 136, 144, 132, 125, 8, 187, 50, 130, 135, 167, 75, 44, 116, 139, 178, 246, 68, 250, 199, 36, 5, 167, 164, 220, 66, 43, 8, 128, 138, 155, 93, 233, 244, 214, 1, 178, 232, 227, 226, 139, 118, 63, 17, 143, 99, 34, 70, 91, 113, 223, 146, 253, 244, 147, 4, 87, 190, 125, 244, 76, 111, 219, 207, 61, 101, 50, 225, 33, 144, 232, 188, 15, 250, 47, 2, 25, 224, 253, 162, 20, 161, 93, 252, 230, 3, 115, 74, 0, 124, 6, 231, 128, 181, 229, 154, 194, 112, 141, 151, 123, 147, 56, 140, 71, 110, 34, 49, 62, 185, 207, 133, 242, 177, 24, 65, 142, 115, 200, 124, 164, 162, 152, 163, 218, 192, 143, 202, 236, 22, 71, 246, 16, 69, 109, 16, 17, 94, 194, 124, 41, 56, 164, 62, 235, 0, 105, 107, 191, 10, 0, 209, 126, 87, 183, 60, 59, 27, 248, 254, 190, 20, 159, 68, 79, 62, 199, 84, 171, 95, 4, 244, 153, 3, 123, 207, 87, 133, 97, 171, 63, 227, 150, 97, 94, 104, 209, 17, 26, 42, 179, 141, 3, 186, 85, 2, 115, 223, 184, 196, 56, 85, 55, 165, 94, 2, 61, 51, 202, 121, 84, 2, 122, 179, 160, 248, 130, 229, 110, 204, 112, 110, 74, 14, 107, 104, 153, 195, 205, 51, 104, 142, 61, 110, 203, 184, 101, 254, 135, 1, 192, 21, 162, 241, 33, 86, 250, 159, 110, 56, 129, 128, 48, 255, 94, 154, 44, 26, 107, 144, 237, 198, 69, 100, 97, 113, 73, 140, 48, 131, 83, 56, 150, 135, 57, 199, 235, 101, 58, 169, 240, 221, 26, 177, 38, 192, 65, 216, 164, 235, 103, 105, 251, 17, 114, 148, 49, 120, 52, 37, 60, 147, 160, 172, 22, 93, 200, 196, 16, 245, 45, 208, 99, 145, 221, 54, 95, 233, 69, 172, 21, 39, 71, 142, 61, 200, 122, 86, 167, 61, 236, 27, 27, 162, 250, 249, 3, 147, 49, 175, 247, 182, 118, 103, 108, 34, 57, 183, 44, 151, 84, 242, 43, 32, 68, 163, 155, 100, 40, 239, 97, 242, 110, 5, 209, 91, 44, 78, 130, 149, 80, 155, 219, 12, 65, 239, 215, 203, 22, 163, 27, 72, 5, 234, 243, 111, 159, 208, 4, 159, 14, 211, 35, 19, 142, 167, 32, 111, 239, 118, 195, 95, 255, 141, 11, 237, 145, 217, 91, 245, 89, 110, 204, 190, 32, 4, 237, 191, 105, 205, 41, 99, 59, 251, 218, 55, 13, 90, 112, 251, 72, 64, 109, 76, 173, 129, 161, 114, 133, 168, 95, 191, 68, 115, 5, 211, 192, 166, 201, 146, 47, 171, 32, 103, 54, 142, 207, 205, 36, 33, 179, 98, 71, 248, 97, 41, 19, 158, 87, 163, 220, 38, 112, 71, 16, 147, 182, 88, 209, 255, 170, 186, 237, 231, 203, 14, 222, 181, 114, 252, 1, 64, 89, 222, 3, 84, 196, 76, 65, 194, 95, 51, 50, 222, 38, 190, 74, 195, 23, 49, 169, 73, 71, 131, 11, 99, 234, 42, 116, 177, 161, 123, 173, 228, 154, 151, 234, 200, 196, 113, 123, 227, 243, 77, 57, 200, 164, 150, 1, 17, 216, 56, 141, 243, 247, 206, 130, 227, 13, 34, 169, 201, 227, 252, 154, 131, 97, 210, 18, 151, 131, 90, 93, 112, 155, 100, 247, 8, 21, 109, 118, 27, 48, 113, 62, 128, 2, 208, 185, 0, 165, 211, 35, 128, 227, 30, 25, 201, 165, 46, 177, 255, 116, 97, 184, 103, 167, 87, 189, 207, 182, 199, 239, 141, 97, 254, 235, 126, 251, 167, 79, 22, 255, 107, 3, 120, 249, 118, 194, 239, 247, 178, 167, 167, 160, 154, 24, 233, 38, 17, 172, 190, 237, 188, 118, 90, 160, 163, 129, 130, 66, 176, 91, 1, 127, 74, 183, 182, 83, 18, 1, 119, 254, 113, 10, 47, 209, 160, 115, 124, 38, 62, 231, 239, 122, 133, 248, 9, 238, 124, 56, 214, 169, 51, 53, 114, 138, 140, 225, 80, 139, 104, 152, 49, 90, 151, 172, 221, 231, 71, 237, 128, 206, 56, 150, 138, 20, 27, 104, 102, 31, 106, 9, 74, 235, 118, 18, 101, 70, 130, 179, 232, 103, 197, 160, 182, 48, 15, 39, 60, 177, 156, 162, 236, 243, 240, 186, 108, 22, 177, 26, 105, 86, 84, 188, 206, 42, 148, 46, 219, 52, 164, 34, 111, 66, 191, 32, 120, 130, 160, 186, 175, 83, 34, 209, 220, 31, 47, 235, 48, 252, 221, 49, 74, 31, 109, 168, 210, 236, 197, 138, 218, 223, 54, 250, 14, 174, 220, 178, 165, 154, 182, 224, 223, 17, 195, 122, 188, 214, 138, 104, 39, 233, 149, 213, 2, 158, 149, 157, 254, 230, 37, 8, 251, 174, 109, 204, 239, 175, 202, 114, 237, 194, 53, 39, 145, 136, 130, 97, 104, 113, 217, 155, 0, 30, 197, 209, 234, 122, 26, 144, 107, 7, 254, 120, 34, 111, 229, 78, 208, 123, 129, 160, 150, 141, 119, 92, 235, 77, 25, 244, 177, 232, 225, 90, 144, 43, 87, 157, 165, 15, 130, 213, 199, 207, 10, 176, 86, 34, 240, 56, 123, 120, 208, 137, 82, 156, 23, 85, 188, 45, 254, 149, 90, 84, 49, 33, 46, 166, 89, 83, 114, 44, 124, 229, 202, 74, 139, 64, 191, 110, 101, 90, 144, 207, 87, 93, 210, 149, 206, 126, 50, 110, 233, 200, 69, 162, 165, 133, 189, 188, 166, 34, 152, 205, 91, 87, 66, 239, 109, 57, 147, 85, 138, 12, 144, 252, 90, 154, 27, 59, 240, 143, 124, 251, 158, 55, 145, 223, 10, 135, 87, 210, 82, 84, 107, 228, 18, 101, 79, 16, 143, 220, 173, 78, 144, 253, 44, 117, 242, 42, 4, 97, 5, 36, 19, 74, 173, 25, 247, 186, 220, 6, 225, 253, 69, 247, 122, 119, 57, 231, 153, 203, 211, 89, 136, 53, 42, 110, 183, 236, 181, 173, 117, 205, 45, 38, 80, 216, 79, 236, 84, 77, 75, 189, 90, 105, 200, 112, 5, 103, 232, 36, 97, 69, 16, 97, 170, 199, 64, 193, 221, 149, 65, 195, 181, 170, 247, 171, 65, 10, 17, 51, 206, 153, 37, 208, 22, 99, 163, 101, 80, 68, 110, 228, 83, 62, 211, 170, 254, 6, 223, 207, 19, 251, 114, 167, 231, 154, 135, 124, 169, 58, 148, 59, 36, 134, 131, 234, 131, 235, 121, 183, 62, 232, 234, 103, 174, 37, 10, 5, 198, 74, 253, 254, 208, 202, 58, 183, 151, 171, 195, 54, 33, 110, 77, 179, 16, 181, 82, 94, 32, 248, 144, 218, 117, 46, 155, 132, 18, 194, 71, 104, 136, 67, 26, 201, 178, 48, 90, 72, 109, 94, 8, 190, 144, 15, 152, 126, 114, 221, 245, 178, 235, 147, 23, 56, 22, 86, 85, 177, 53, 46, 138, 226, 243, 133, 143, 55, 187, 243, 41, 148, 61, 133, 137, 107, 235, 13, 250, 73, 227, 67, 111, 196, 78, 181, 222, 146, 93, 42, 196, 174, 41, 119, 161, 178, 168, 96, 195, 174, 84, 251, 155, 222, 5, 26, 52, 183, 208, 151, 8, 6, 41, 255, 161, 102, 52, 120, 123, 209, 119, 166, 10, 224, 236, 211, 188, 66, 12, 66, 223, 24, 43, 29, 176, 53, 206, 106, 22, 24, 230, 20, 240, 131, 106, 17, 41, 97, 200, 185, 208, 82, 183, 82, 82, 223, 181, 31, 233, 180, 29, 13, 28, 112, 23, 17, 11, 230, 199, 49, 208, 79, 67, 38, 59, 51, 229, 208, 179, 254, 251, 232, 165, 124, 146, 224, 213, 73, 179, 122, 159, 225, 244, 244, 35, 160, 196, 17, 249, 62, 148, 142, 117, 61, 44, 98, 189, 46, 239, 173, 59, 80, 141, 46, 245, 55, 95, 25, 182, 227, 9, 35, 15, 96, 134, 143, 78, 255, 178, 214, 17, 177, 232, 137, 216, 190, 184, 187, 9, 117, 166, 152, 20, 171, 219, 2, 137, 45, 179, 167, 132, 178, 170, 95, 47, 185, 2, 32, 101, 46, 109, 98, 182, 109, 88, 113, 38, 224, 240, 157, 128, 196, 61, 5, 134, 111, 18, 105, 43, 67, 140, 21, 252, 204, 63, 189, 132, 208, 132, 205, 236, 178, 92, 136, 66, 189, 252, 144, 85, 226, 118, 16, 176, 15, 247, 118, 98, 132, 152, 28, 149, 48, 182, 147, 28, 132, 27, 50, 184, 27, 39, 87, 241, 35, 222, 227, 203, 141, 151, 221, 25, 102, 43, 184, 173, 115, 136, 182, 83, 133, 179, 179, 93, 173, 213, 245, 145, 68, 108, 78, 182, 153, 90, 142, 206, 5, 161, 135, 89, 32, 228, 167, 224, 61, 146, 96, 119, 34, 43, 18, 198, 162, 216, 81, 244, 151, 119, 173, 137, 33, 229, 216, 190, 6, 75, 3, 155, 248, 250, 35, 36, 144, 221, 11, 250, 12, 29, 70, 27, 20, 189, 99, 156, 196, 92, 73, 15, 233, 204, 164, 233, 19, 113, 203, 181, 49, 223, 181, 11, 82, 51, 50, 123, 209, 253, 117, 219, 217, 32, 84, 54, 190, 28, 64, 143, 162, 62, 60, 175, 82, 9, 7, 240, 122, 228, 13, 31, 252, 106, 123, 193, 241, 133, 65, 195, 161, 175, 47, 92, 189, 38, 151, 45, 172, 153, 68, 129, 64, 157, 103, 237, 209, 52, 2, 15, 23, 222, 196, 116, 12, 61, 51, 227, 164, 66, 48, 65, 165, 157, 69, 142, 56, 147, 76, 108, 245, 209, 153, 94, 108, 138, 254, 26, 100, 23, 81, 135, 135, 91, 170, 192, 174, 174, 149, 10, 150, 152, 217, 170, 164, 244, 12, 1, 86, 228, 113, 12, 204, 15, 92, 218, 234, 218, 44, 248, 5, 5, 94, 174, 36, 242, 200, 48, 72, 210, 115, 132, 236, 155, 72, 131, 69, 107, 92, 58, 211, 51, 184, 226, 7, 221, 10, 167, 72, 124, 209, 206, 76, 39, 213, 17, 143, 147, 9, 67, 7, 5, 95, 242, 216, 28, 3, 151, 162, 211, 127, 83, 211, 221, 190, 243, 225, 110, 231, 39, 2, 8, 110, 132, 172, 142, 84, 89, 55, 35, 192, 208, 45, 157, 101, 122, 30, 192, 143, 105, 244, 21, 193, 212, 210, 131, 167, 210, 12, 8, 249, 213, 51, 230, 249, 65, 118, 32, 201, 119, 142, 70, 107, 163, 239, 78, 21, 40, 201, 245, 33, 245, 220, 93, 79, 89, 179, 165, 98, 63, 40, 183, 169, 52, 248, 157, 152, 25, 213, 163, 73, 141, 88, 75, 43, 109, 175, 137, 176, 53, 44, 27, 141, 127, 225, 73, 165, 63, 210, 79, 122, 126, 63, 236, 23, 16, 18, 71, 232, 183, 12, 28, 77, 230, 6, 16, 243, 217, 104, 64, 232, 16, 61, 88, 221, 237, 22, 46, 4, 157, 0, 208, 137, 125, 49, 182, 81, 236, 95, 220, 138, 68, 177, 106, 18, 41, 153, 39, 140, 110, 197, 66, 77, 73, 175, 65, 145, 107, 7, 213, 118, 90, 198, 88, 22, 37, 145, 23, 175, 24, 108, 177, 205, 4, 157, 74, 0, 178, 138, 58, 223, 46, 84, 232, 113, 238, 169, 202, 4, 140, 187, 79, 94, 247, 211, 171, 214, 188, 130, 113, 197, 110, 247, 72, 59, 50, 225, 82, 52, 243, 87, 138, 175, 96, 180, 180, 190, 184, 19, 243, 203, 199, 188, 171, 47, 14, 132, 6, 232, 202, 41, 28, 69, 213, 155, 108, 194, 69, 132, 189, 10, 227, 190, 94, 5, 88, 73, 45, 89, 204, 134, 20, 123, 39, 118, 196, 249, 221, 225, 66, 215, 172, 70, 73, 197, 24, 109, 233, 149, 248, 187, 30, 22, 76, 48, 217, 171, 3, 229, 135, 72, 122, 79, 48, 99, 59, 112, 79, 118, 202, 15, 56, 72, 68, 204, 165, 104, 101, 42, 212, 92, 33, 108, 103, 18, 38, 249, 136, 92, 157, 171, 68, 91, 161, 13, 65, 138, 173, 57, 64, 223, 239, 185, 113, 97, 102, 57, 248, 181, 90, 249, 13, 52, 155, 112, 108, 187, 156, 4, 95, 57, 104, 134, 15, 223, 41, 120, 203, 173, 124, 185, 5, 220, 19, 57, 28, 92, 145, 3, 219, 31, 204, 155, 26, 9, 250, 193, 152, 209, 179, 59, 83, 225, 67, 71, 231, 138, 167, 200, 1, 241, 217, 197, 60, 244, 61, 75, 195, 16, 163, 72, 68, 164, 191, 99, 86, 159, 37, 213, 250, 6, 72, 238, 17, 106, 180, 112, 61, 13, 131, 150, 168, 160, 138, 56, 218, 157, 182, 174, 20, 221, 181, 190, 31, 70, 58, 76, 55, 152, 70, 105, 213, 147, 243, 88, 19>>
CustomStream == <<244, 37, 219, 210, 186, 115, 130, 20, 63, 105, 168, 140, 164, 103, 62, 196, 92, 32, 57, 22, 56, 10, 72, 6, 244, 108, 76, 181, 213, 166, 163, 228, 49, 216, 52, 226, 141, 198, 229, 132, 11, 53, 126, 129, 178, 172, 202, 112, 2, 150, 126, 181, 69, 21, 156, 237, 192, 159, 248, 46, 136, 235, 244, 46, 194, 168, 178, 88, 49, 171, 165, 216, 81, 215, 39, 227, 188, 62, 179, 200, 101, 36, 166, 168, 105, 240, 205, 57, 244, 123, 222, 195, 217, 133, 33, 229, 26, 59, 84, 79, 227, 141, 172, 219, 29, 242, 168, 109, 2, 21, 55, 95, 24, 137, 68, 40, 11, 176, 120, 226, 11, 245, 128, 38, 179, 215, 159, 161, 220, 177, 200, 195, 90, 65, 51, 183, 22, 79, 52, 92, 95, 2, 211, 179, 73, 189, 86, 68, 10, 1, 240, 196, 206, 76, 188, 183, 210, 49, 195, 239, 82, 27, 216, 92, 158, 211, 245, 243, 137, 218, 179, 199, 5, 181, 254, 173, 33, 68, 208, 88, 191, 55, 231, 12, 47, 248, 13, 21, 3, 101, 135, 17, 96, 127, 45, 213, 54, 13, 227, 73, 87, 58, 145, 62, 105, 58, 214, 122, 137, 236, 235, 50, 156, 122, 68, 151, 57, 19, 165, 214, 89, 123, 72, 109, 184, 207, 2, 247, 156, 185, 230, 79, 103, 30, 141, 31, 65, 235, 195, 36, 177, 34, 183, 72, 41, 52, 123, 161, 2, 124, 64, 97, 43, 164, 82, 125, 146, 77, 183, 60, 211, 32, 224, 230, 34, 98, 181, 38, 177, 192, 161, 9, 156, 49, 228, 200, 149, 230, 25, 21, 77, 201, 10, 137, 20, 97, 243, 33, 78, 180, 192, 9, 161, 125, 148, 190, 198, 96, 8, 50, 233, 113, 156, 66, 109, 68, 250, 189, 167, 76, 147, 142, 8, 59, 221, 160, 223, 236, 28, 160, 128, 42, 185, 190, 171, 208, 98, 190, 8, 31, 229, 129, 250, 103, 75, 206, 177, 161, 83, 168, 108, 37, 31, 45, 246, 224, 108, 42, 91, 47, 210, 119, 176, 181, 213, 128, 237, 185, 14, 169, 193, 217, 92, 104, 103, 187, 72, 27, 233, 14, 13, 245, 185, 21, 15, 230, 21, 241, 114, 11, 99, 238, 158, 6, 164, 11, 81, 214, 205, 203, 52, 69, 141, 136, 203, 72, 209, 245, 122, 46, 202, 66, 155, 195, 69, 242, 187, 71, 37, 190, 98, 233, 242, 78, 199, 164, 55, 124, 152, 15, 173, 104, 136, 212, 37, 71, 123, 216, 90, 121, 196, 106, 4, 177, 133, 213, 127, 195, 203, 37, 86, 78, 160, 4, 102, 28, 185, 134, 44, 67, 63, 87, 55, 52, 237, 109, 1, 104, 30, 214, 112, 40, 7, 1, 93, 42, 207, 4, 232, 248, 62, 189, 203, 48, 129, 153, 145, 146, 246, 38, 232, 45, 101, 106, 52, 225, 62, 234, 18, 226, 75, 93, 202, 91, 23, 104, 183, 173, 213, 70, 24, 234, 134, 123, 47, 43, 110, 92, 166, 118, 229, 179, 64, 223, 142, 108, 81, 235, 53, 63, 95, 31, 241, 75, 225, 199, 149, 169, 27, 193, 166, 147, 231, 205, 227, 170, 112, 207, 11, 148, 38, 215, 251, 46, 252, 80, 91, 2, 133, 99, 158, 83, 146, 46, 112, 185, 83, 75, 18, 60, 105, 215, 238, 161, 168, 128, 106, 130, 149, 102, 19, 214, 123, 8, 84, 51, 36, 122, 139, 89, 40, 234, 62, 111, 15, 108, 90, 102, 9, 145, 83, 144, 114, 169, 243, 52, 20, 94, 103, 90, 130, 78, 110, 52, 178, 159, 20, 159, 201, 213, 155, 15, 44, 52, 114, 66, 192, 245, 93, 98, 58, 125, 241, 121, 43, 208, 107, 36, 91, 251, 61, 179, 150, 173, 166, 187, 19, 175, 56, 42, 241, 204, 143, 135, 117, 225, 58, 185, 25, 175, 244, 52, 187, 212, 114, 185, 109, 96, 178, 136, 104, 164, 65, 166, 46, 235, 160, 14, 133, 188, 57, 146, 187, 12, 48, 119, 97, 30, 161, 226, 214, 137, 102, 33, 168, 80, 81, 41, 64, 214, 64, 154, 216, 110, 34, 217, 48, 196, 72, 172, 45, 55, 103, 79, 48, 9, 232, 98, 166, 195, 183, 101, 6, 109, 124, 123, 234, 216, 94, 33, 114, 215, 192, 17, 184, 128, 49, 7, 211, 94, 10, 65, 206, 200, 26, 53, 116, 81, 205, 34, 170, 218, 31, 15, 231, 55, 166, 60, 110, 247, 153, 89, 97, 12, 14, 176, 143, 223, 74, 32, 95, 107, 230, 193, 56, 54, 182, 10, 203, 35, 135, 4, 16, 179, 73, 133, 45, 180, 179, 176, 121, 77, 218, 64, 18, 203, 10, 195, 241, 3, 72, 177, 161, 134, 179, 33, 54, 90, 156, 109, 13, 8, 238, 226, 90, 19, 77, 238, 12, 192, 176, 138, 100, 109, 139, 94, 125, 137, 60, 140, 80, 167, 98, 107, 157, 140, 98, 155, 56, 23, 102, 192, 211, 139, 130, 179, 15, 8, 66, 158, 55, 123, 245, 37, 118, 132, 127, 214, 54, 167, 34, 8, 139, 128, 69, 101, 122, 96, 200, 70, 16, 98, 47, 238, 223, 217, 205, 84, 75, 115, 185, 51, 36, 94, 118, 57, 239, 167, 178, 223, 88, 218, 191, 251, 89, 177, 187, 221, 186, 28, 141, 248, 216, 114, 95, 88, 47, 228, 59, 77, 213, 207, 88, 131, 123, 30, 136, 181, 190, 171, 116, 55, 79, 192, 63, 131, 89, 226, 130, 89, 9, 16, 114, 89, 184, 93, 177, 177, 1, 118, 161, 27, 55, 136, 215, 72, 238, 82, 19, 250, 48, 75, 58, 58, 55, 22, 240, 113, 212, 61, 172, 172, 58, 95, 175, 69, 221, 103, 188, 176, 209, 94, 74, 251, 134, 29, 254, 191, 120, 12, 190, 199, 235, 160, 135, 200, 8, 252, 179, 243, 117, 245, 114, 41, 70, 145, 124, 138, 81, 47, 88, 121, 92, 68, 243, 71, 224, 16, 4, 168, 166, 204, 233, 191, 203, 44, 193, 194, 91, 82, 221, 169, 247, 203, 171, 84, 70, 87, 85, 70, 235, 232, 19, 211, 179, 180, 159, 0, 124, 240, 26, 102, 47, 99, 176, 248, 156, 180, 196, 119, 151, 248, 239, 227, 64, 250, 74, 62, 91, 43, 117, 140, 106, 14, 211, 76, 58, 186, 199, 81, 199, 75, 194, 52, 223, 167, 157, 206, 189, 75, 24, 69, 39, 184, 191, 7, 128, 217, 79, 14, 34, 138, 173, 10, 70, 154, 85, 34, 217, 56, 248, 9, 28, 92, 231, 206, 83, 182, 32, 41, 245, 76, 75, 217, 56, 119, 51, 13, 180, 138, 152, 15, 244, 200, 238, 40, 219, 158, 243, 208, 140, 4, 70, 238, 197, 79, 230, 0, 112, 2, 41, 174, 104, 55, 163, 189, 11, 19, 223, 224, 211, 5, 11, 247, 46, 175, 185, 217, 134, 3, 204, 172, 126, 8, 83, 83, 209, 87, 239, 221, 56, 245, 110, 62, 45, 76, 195, 161, 156, 111, 160, 34, 115, 216, 18, 225, 75, 3, 250, 237, 195, 232, 4, 3, 107, 145, 151, 170, 136, 140, 215, 122, 11, 108, 103, 218, 242, 137, 75, 205, 4, 126, 64, 167, 164, 7, 28, 216, 200, 14, 221, 132, 9, 76, 171, 175, 128, 78, 181, 238, 99, 250, 68, 44, 134, 204, 217, 28, 93, 43, 23, 190, 39, 15, 23, 138, 91, 167, 24, 21, 147, 252, 252, 182, 37, 86, 112, 211, 205, 49, 242, 179, 142, 5, 68, 28, 79, 246, 232, 215, 27, 215, 188, 91, 49, 242, 27, 29, 200, 19, 36, 44, 136, 214, 77, 154, 28, 159, 123, 227, 28, 59, 112, 113, 214, 153, 95, 145, 147, 60, 135, 132, 111, 104, 53, 222, 169, 132, 145, 242, 116, 118, 129, 234, 77, 25, 149, 89, 2, 175, 76, 112, 194, 118, 173, 27, 123, 1, 188, 11, 225, 227, 50, 48, 159, 42, 160, 223, 57, 67, 109, 174, 74, 106, 225, 67, 254, 63, 9, 224, 73, 219, 97, 109, 213, 207, 221, 112, 181, 83, 151, 139, 231, 30, 218, 78, 23, 9, 181, 178, 77, 16, 240, 5, 105, 126, 41, 133, 15, 220, 7, 41, 181, 81, 137, 222, 121, 71, 254, 161, 115, 230, 103, 90, 3, 181, 198, 161, 229, 119, 56, 120, 134, 188, 60, 66, 50, 232, 181, 252, 28, 59, 195, 76, 54, 13, 8, 35, 19, 68, 89, 50, 9, 217, 100, 77, 249, 108, 50, 137, 234, 92, 181, 115, 199, 230, 224, 182, 228, 178, 45, 144, 88, 104, 62, 41, 233, 125, 179, 6, 255, 175, 131, 68, 125, 106, 182, 133, 215, 43, 205, 23, 209, 46, 58, 156, 65, 18, 108, 158, 254, 151, 38, 79, 39, 96, 0, 166, 145, 207, 53, 205, 83, 36, 211, 1, 2, 2, 143, 209, 101, 216, 25, 119, 15, 76, 110, 21, 255, 205, 56, 69, 54, 177, 198, 90, 248, 99, 8, 251, 123, 176, 54, 72, 95, 39, 228, 157, 151, 212, 190, 191, 100, 207, 255, 24, 190, 207, 84, 160, 63, 164, 99, 124, 96, 54, 46, 82, 205, 107, 3, 6, 119, 227, 176, 193, 16, 167, 100, 175, 79, 174, 45, 102, 191, 226, 38, 3, 106, 151, 116, 90, 169, 116, 183, 93, 157, 178, 81, 215, 173, 184, 179, 187, 185, 226, 72, 54, 168, 28, 134, 251, 86, 209, 252, 198, 72, 211, 13, 108, 7, 121, 81, 55, 94, 115, 186, 213, 77, 77, 231, 125, 55, 228, 95, 94, 43, 117, 168, 59, 234, 244, 16, 57, 157, 46, 35, 72, 74, 43, 8, 86, 98, 145, 184, 118, 9, 211, 144, 138, 47, 16, 242, 133, 81, 109, 237, 149, 125, 37, 90, 252, 186, 174, 158, 64, 229, 234, 37, 104, 18, 113, 46, 125, 246, 191, 77, 176, 107, 146, 204, 140, 73, 206, 203, 50, 162, 225, 216, 72, 196, 222, 213, 14, 81, 6, 199, 190, 254, 25, 219, 86, 110, 54, 38, 146, 38, 157, 191, 193, 28, 66, 202, 128, 57, 155, 11, 215, 215, 4, 180, 137, 236, 82, 21, 106, 32, 207, 80, 51, 116, 54, 69, 132, 183, 242, 169, 88, 113, 104, 242, 176, 190, 211, 245, 107, 54, 195, 24, 156, 183, 4, 28, 54, 67, 219, 223, 97, 252, 130, 201, 67, 185, 200, 112, 194, 72, 166, 103, 244, 11, 52, 127, 3, 146, 28, 68, 162, 150, 61, 40, 185, 57, 127, 169, 93, 42, 11, 58, 111, 232, 161, 104, 19, 232, 97, 242, 249, 113, 35, 223, 16, 106, 52, 122, 199, 153, 135, 224, 185, 56, 61, 192, 30, 66, 87, 9, 78, 20, 81, 106, 114, 176, 112, 221, 223, 176, 52, 151, 5, 149, 87, 25, 89, 0, 104, 16, 123, 172, 244, 192, 125, 63, 181, 119, 44, 3, 193, 124, 10, 55, 4, 196, 150, 57, 226, 63, 77, 162, 96, 15, 32, 129, 97, 194, 129, 247, 8, 167, 244, 252, 216, 173, 193, 97, 129, 92, 155, 177, 233, 217, 146, 234, 17, 119, 119, 200, 145, 174, 39, 55, 79, 194, 168, 110, 57, 38, 192, 201, 253, 175, 136, 148, 183, 199, 138, 37, 153, 188, 216, 54, 7, 45, 248, 222, 76, 171, 233, 161, 152, 86, 75, 251, 202, 242, 36, 130, 63, 233, 54, 208, 24, 143, 36, 227, 13, 138, 176, 43, 147, 75, 112, 136, 225, 118, 211, 150, 76, 73, 222, 93, 164, 251, 218, 223, 191, 95, 35, 230, 211, 75, 221, 207, 221, 176, 150, 133, 18, 170, 130, 50, 81, 30, 171, 223, 210, 144, 84, 153, 1, 131, 245, 97, 103, 73, 131, 128, 160, 252, 50, 244, 174, 233, 22, 49, 91, 170, 194, 84, 77, 83, 159, 4, 246, 92, 199, 50, 164, 75, 146, 249, 40, 19, 217, 249, 194, 1, 208, 71, 209, 153, 14, 12, 209, 52, 99, 12, 124, 119, 213, 230, 23, 1, 246, 226, 14, 214, 115, 55, 25, 237, 96, 117, 3, 14, 7, 175, 217, 15, 223, 38, 35, 177, 187, 9, 212, 155, 222, 36, 156, 129, 195, 108, 73, 252, 55, 76, 168, 69, 36, 128, 200, 92, 189, 238, 181, 150, 233, 101, 231, 98, 147, 72, 185, 86, 65, 125, 53, 234, 77, 38, 240, 100, 232, 106, 96, 174, 54, 192, 147, 61, 57, 186, 93, 102, 245, 192, 54, 123, 19, 7, 250, 155, 28, 131, 156, 18, 14, 183, 156, 154, 125, 235, 194, 116, 155, 53, 112, 251, 15, 124, 118, 49, 241, 212, 236, 225, 73, 135, 238, 221, 8, 174, 92, 91, 20, 235, 151, 77, 103, 87, 37, 104, 1, 228, 171, 74, 217, 71, 217, 79, 103, 237, 84, 60, 122, 109, 89, 65, 152, 129, 117, 106, 108, 165, 168, 25, 237, 196, 178, 104, 198, 76, 187, 218, 58, 180, 47, 82, 22, 117, 163, 28, 138, 160, 221, 28, 225, 76, 149, 64, 59, 248, 188, 200, 154, 42, 234, 88, 26, 200, 249, 74, 51, 244, 232, 209, 20, 94, 226, 12, 204, 106, 17, 73, 231, 37, 88, 35, 229, 29, 126, 25, 143, 237, 31, 179, 39, 1, 226, 240, 226, 133, 7, 115, 13, 197, 0, 195, 233, 220, 111, 9, 89, 32, 160, 17, 241, 228, 34, 95, 162, 138, 122, 237, 1, 23, 236, 218, 193, 128, 185, 111, 220, 108, 125, 60, 249, 205, 142, 197, 233, 86, 18, 161, 154, 213, 186, 81, 60, 129, 82, 43, 64, 89, 129, 240, 42, 41, 192, 200, 76, 97, 72, 114, 140, 219, 91, 45, 107, 26, 103, 200, 120, 103, 59, 62, 67, 196, 137, 57, 101, 232, 216, 223, 59, 196, 78, 251, 28, 199, 181, 159, 254, 94, 103, 174, 90, 35, 51, 229, 149, 238, 150, 121, 135, 16, 107, 185, 134, 254, 201, 249, 210, 37, 209, 82, 206, 171, 63, 234, 96, 11, 164, 172, 252, 64, 203, 242, 100, 7, 74, 187, 74, 119, 169, 24, 53, 88, 214, 193, 91, 48, 239, 158, 170, 35, 198, 108, 81, 245, 185, 149, 44, 22, 31, 70, 167, 134, 241, 22, 36, 101, 190, 133, 225, 229, 171, 7, 80, 239, 138, 128, 244, 115, 39, 156, 60, 80, 48, 148, 246, 115, 110, 230, 121, 21, 164, 127, 82, 43, 243, 54, 194, 43, 238, 232, 133, 8, 92, 205, 166, 79, 230, 242, 145, 86, 199, 35, 7, 223, 19, 126, 79, 253, 137, 94, 243, 158, 142, 37, 178, 185, 193, 25, 10, 206, 91, 110, 186, 36, 32, 48, 45, 34, 67, 188, 168, 122, 238, 220, 62, 130, 66, 104, 210, 59, 68, 4, 237, 155, 102, 248, 126, 3, 204, 77, 201, 168, 33, 32, 248, 62, 60, 22, 127, 193, 241, 49, 99, 36, 117, 153, 192, 228, 49, 255, 147, 101, 231, 202, 83, 170, 10, 16, 159, 82, 83, 210, 89, 237, 175, 109, 3, 49, 249, 84, 65, 42, 1, 250, 143, 225, 178, 5, 99, 42, 104, 79, 246, 242, 53, 182, 112, 107, 158, 75, 14, 184, 153, 239, 136, 33, 193, 1, 224, 65, 18, 240, 176, 96, 51, 24, 231, 173, 43, 106, 97, 17, 208, 29, 168, 106, 53, 172, 28, 174, 93, 58, 72, 94, 209, 129, 234, 155, 192, 222, 84, 207, 88, 180, 157, 119, 132, 156, 178, 7, 199, 174, 55, 239, 56, 49, 25, 55, 2, 231, 89, 108, 152, 10, 188, 97, 87, 249, 115, 1, 190, 177, 18, 17, 186, 2, 237, 71, 204, 110, 222, 252, 232, 241, 173, 15, 40, 109, 38, 133, 240, 122, 199, 199, 126, 134, 150, 25, 114, 75, 101, 228, 195, 131, 203, 161, 90, 165, 175, 80, 223, 200, 148, 74, 24, 4, 141, 231, 84, 133, 250, 178, 112, 40, 120, 95, 98, 212, 119, 198, 75, 175, 78, 154, 225, 136, 129, 24, 84, 164, 3, 66, 4, 210, 167, 167, 228, 213, 39, 39, 11, 51, 108, 192, 52, 142, 211, 112, 233, 137, 172, 35, 118, 253, 87, 207, 109, 43, 171, 117, 191, 49, 253, 90, 97, 85, 38, 26, 129, 73, 211, 85, 36, 106, 210, 177, 166, 51, 250, 58, 52, 92, 79, 7, 249, 31, 36, 60, 130, 172, 17, 127, 54, 219, 50, 179, 90, 52, 109, 210, 242, 240, 109, 217, 57, 13, 13, 238, 88, 223, 47, 23, 12, 243, 204, 188, 184, 92, 23, 63, 68, 139, 93, 226, 136, 152, 3, 12, 148, 39, 47, 249, 217, 57, 59, 133, 111, 96, 228, 250, 141, 220, 36, 38, 69, 31, 75, 109, 181, 84, 53, 99, 254, 84, 53, 209, 42, 142, 209, 230, 195, 221, 124, 199, 86, 146, 82, 156, 116, 172, 8, 76, 243, 41, 127, 231, 104, 243, 190, 172, 6, 124, 218, 215, 32, 232, 233, 29, 118, 105, 133, 83, 100, 206, 68, 165, 177, 29, 149, 129, 190, 149, 208, 177, 190, 154, 128, 214, 147, 104, 252, 21, 246, 93, 159, 255, 112, 154, 103, 64, 80, 34, 225, 193, 84, 139, 170, 43, 48, 43, 221, 158, 239, 226, 43, 144, 33, 248, 150, 28, 243, 4, 251, 9, 20, 192, 65, 33, 71, 95, 60, 228, 186, 126, 232, 62, 15, 207, 192, 55, 34, 213, 54, 162, 209, 118, 230, 161, 78, 234, 40, 62, 105, 255, 235, 106, 207, 96, 65, 14, 73, 92, 253, 181, 107, 180, 115, 30, 222, 39, 109, 194, 218, 242, 149, 177, 67, 66, 102, 176, 119, 59, 100, 219, 15, 206, 168, 229, 111, 180, 136, 65, 73, 204, 157, 248, 156, 236, 145, 89, 131, 191, 165, 153, 6, 139, 218, 171, 173, 9, 70, 5, 39, 31, 239, 61, 154, 142, 12, 159, 89, 122, 156, 188, 176, 250, 168, 91, 44, 222, 237, 204, 209, 95, 165, 236, 95, 84, 179, 18, 1, 142, 56, 134, 163, 143, 158, 83, 121, 119, 210, 18, 53, 12, 62, 254, 210, 88, 95, 111, 81, 202, 235, 56, 26, 36, 20, 84, 145, 167, 158, 89, 86, 227, 12, 208, 202, 123, 244, 26, 237, 175, 41, 58, 64, 134, 134, 76, 8, 115, 180, 81, 116, 84, 149, 180, 188, 203, 238, 157, 167, 231, 122, 235, 162, 159, 63, 219, 117, 1, 132, 144, 166, 220, 38, 170, 37, 147, 4, 169, 132, 173, 178, 171, 110, 127, 129, 160, 31, 154, 10, 75, 110, 19, 180, 148, 224, 103, 110, 59, 95, 41, 44, 30, 227, 149, 73, 44, 195, 9, 200, 108, 203, 198, 233, 11, 73, 165, 150, 254, 228, 109, 227, 179, 54, 127, 216, 194, 30, 38, 187, 95, 68, 29, 121, 233, 146, 72, 124, 133, 131, 18, 237, 148, 217, 37, 151, 194, 241, 147, 16, 177, 171, 85, 135, 164, 154, 159, 129, 15, 95, 157, 130, 8, 169, 191, 207, 104, 143, 55, 241, 63, 78, 210, 231, 109, 204, 27, 61, 245, 176, 51, 34, 153, 239, 107, 215, 94, 234, 122, 31, 120, 206, 58, 42, 12, 51, 64, 68, 149, 22, 223, 111, 152, 93, 71, 72, 130, 28, 15, 62, 72, 225, 120, 152, 241, 226, 156, 125, 185, 18, 128, 23, 167, 235, 101, 209, 51, 192, 118, 146, 38, 165, 214, 123, 79, 190, 240, 127, 38, 248, 236, 212, 52, 221, 141, 130, 236, 98, 76, 140, 17, 114, 45, 208, 2, 168, 123, 199, 27, 37, 103, 9, 135, 212, 2, 53, 122, 147, 100, 153, 190, 241, 250, 32, 190, 223, 153, 27, 223, 65, 119, 40, 197, 125, 242, 53, 245, 79, 65, 82, 254, 239, 40, 19, 133, 210, 117, 245, 238, 114, 189, 223, 245, 199, 197, 95, 11, 103, 24, 114, 46, 70, 12, 213, 0, 180, 135, 170, 148, 95, 23, 251, 42, 147, 83, 31, 36, 193, 210, 118, 213, 244, 75, 12, 193, 11, 184, 198, 118, 119, 216, 106, 152, 21, 128, 110, 59, 131, 19, 102, 255, 48, 47, 70, 228, 164, 38, 157, 111, 146, 143, 78, 119, 158, 44, 185, 22, 224, 87, 5, 159, 147, 86, 111, 154, 121, 89, 221, 221, 90, 225, 157, 247, 255, 116, 249, 109, 203, 132, 132, 228, 79, 215, 47, 135, 50, 247, 73, 127, 30, 227, 230, 197, 6, 59, 112, 137, 165, 52, 1, 217, 32, 69, 200, 233, 233, 154, 33, 50, 161, 253, 51, 181, 121, 200, 141, 104, 123, 118, 102, 230, 145, 158, 141, 205, 25, 187, 94, 46, 2, 196, 178, 247, 97, 180, 60, 143, 189, 127, 21, 167, 130, 36, 46, 94, 44, 58, 57, 130, 88, 137, 41, 67, 175, 51, 80, 187, 84, 254, 218, 241, 115, 183, 162, 89, 32, 111, 210, 15, 119, 193, 185, 201, 68, 64, 207, 179, 113, 111, 118, 149, 134, 100, 208, 121, 96, 160, 124, 235, 236, 164, 137, 10, 39, 172, 16, 200, 192, 85, 234, 10, 138, 197, 234, 203, 233, 67, 1, 174, 149, 189, 186, 80, 157, 230, 161, 210, 3, 48, 140, 29, 253, 158, 78, 242, 237, 206, 107, 57, 106, 174, 255, 145, 76, 9, 31, 70, 89, 178, 177, 64, 218, 160, 86, 104, 80, 163, 7, 146, 39, 253, 120, 42, 190, 153, 139, 147, 181, 38, 72, 126, 1, 195, 179, 46, 237, 23, 92, 208, 130, 83, 74, 107, 207, 168, 168, 64, 75, 48, 74, 50, 19, 190, 31, 187, 59, 244, 163, 234, 220, 188, 134, 75, 13, 206, 25, 134, 147, 240, 250, 251, 67, 229, 95, 118, 18, 47, 193, 219, 199, 145, 201, 189, 45, 29, 63, 90, 221, 237, 228, 41, 192, 59, 60, 182, 7, 226, 25, 87, 145, 25, 229, 145, 160, 72, 155, 74, 212, 77, 89, 127, 253, 45, 73, 79, 184, 77, 111, 194, 6, 105, 243, 233, 112, 143, 237, 189, 66, 172, 248, 194, 172, 52, 255, 89, 111, 19, 104, 102, 25, 204, 23, 157, 187, 36, 107, 13, 163, 150, 123, 60, 129, 82, 238, 233, 59, 45, 161, 211, 44, 253, 4, 66, 112, 194, 244, 140, 21, 68, 47, 246, 105, 63, 255, 102, 81, 51, 33, 160, 226, 5, 152, 148, 153, 98, 15, 46, 83, 233, 239, 73, 35, 16, 165, 132, 205, 168, 62, 23, 201, 125, 62, 254, 114, 208, 99, 166, 6, 73, 225, 22, 229, 188, 176, 14, 56, 65, 50, 214, 65, 97, 177, 11, 62, 141, 85, 93, 124, 31, 161, 15, 143, 82, 97, 116, 77, 219, 186, 155, 47, 71, 225, 136, 43, 43, 21, 166, 136, 145, 4, 37, 199, 252, 34, 23, 100, 251, 59, 228, 96, 234, 48, 141, 31, 75, 59, 115, 49, 103, 107, 202, 98, 253, 230, 112, 98, 185, 153, 152, 170, 59, 135, 141, 40, 82, 85, 63, 248, 81, 197, 248, 129, 84, 9, 190, 16, 23, 220, 164, 60, 239, 33, 152, 197, 35, 242, 13, 203, 2, 149, 211, 22, 112, 163, 110, 134, 76, 149, 35, 130, 65, 230, 230, 21, 200, 159, 127, 59, 170, 103, 41, 30, 117, 118, 10, 97, 189, 252, 107, 143, 232, 117, 221, 105, 103, 100, 65, 155, 35, 132, 120, 134, 210, 176, 49, 174, 7, 72, 242, 121, 157, 25, 251, 143, 241, 115, 13, 1, 233, 131, 2, 103, 205, 176, 152, 97, 16, 99, 163, 86, 135, 202, 242, 86, 131, 100, 47, 65, 81, 44, 57, 253, 220, 55, 192, 177, 238, 63, 199, 208, 52, 32, 139, 25, 142, 114, 65, 191, 200, 105, 195, 70, 38, 210, 160, 33, 32, 83, 93, 96, 79, 213, 132, 162, 133, 21, 36, 175, 192, 81, 234, 28, 244, 158, 39, 96, 51, 196, 129, 4, 179, 244, 182, 27, 222, 130, 255, 117, 46, 61, 18, 180, 207, 192, 116, 174, 105, 234, 131, 77, 202, 82, 44, 3, 47, 91, 234, 5, 221, 48, 84, 158, 238, 74, 209, 86, 216, 36, 87, 247, 56, 103, 174, 72, 155, 126, 181, 8, 241, 197, 156, 41, 109, 198, 183, 251, 155, 160, 209, 63, 9, 30, 175, 197, 110, 71, 208, 129, 192, 234, 227, 188, 223, 27, 5, 233, 89, 34, 36, 120, 156, 249, 75, 107, 41, 110, 253, 154, 248, 251, 178, 174, 30, 250, 213, 249, 226, 82, 154, 195, 176, 125, 227, 239, 157, 137, 17, 93, 96, 174, 206, 214, 69, 45, 218, 220, 236, 82, 86, 50, 99, 158, 24, 151, 7, 247, 152, 232, 178, 110, 34, 117, 40, 5, 58, 230, 99, 159, 80, 32, 230, 200, 101, 46, 204, 151, 182, 221, 90, 194, 45, 225, 49, 184, 57, 131, 163, 218, 191, 189, 186, 58, 28, 84, 196, 152, 80, 98, 187, 134, 20, 127, 159, 13, 49, 35, 74, 54, 213, 69, 45, 224, 172, 104, 68, 86, 98, 224, 56, 3, 159, 127, 204, 70, 60, 176, 127, 11, 75, 65, 46, 63, 244, 21, 28, 144, 115, 115, 193, 225, 243, 87, 46, 29, 117, 221, 77, 142, 238, 5, 164, 163, 54, 117, 115, 69, 58, 44, 221, 62, 192, 164, 152, 139, 45, 253, 227, 76, 134, 124, 36, 185, 15, 219, 75, 119, 182, 61, 230, 132, 241, 97, 79, 2, 239, 231, 37, 135, 65, 107, 254, 105, 218, 7, 51, 177, 246, 163, 251, 35, 61, 16, 205, 46, 100, 197, 33, 132, 13, 25, 38, 172, 139, 53, 173, 10, 128, 246, 69, 147, 172, 92, 131, 111, 64, 173, 93, 52, 165, 164, 152, 28, 190, 126, 112, 144, 65, 127, 204, 140, 50, 93, 96, 206, 115, 17, 119, 41, 149, 104, 199, 59, 59, 1, 35, 17, 248, 1, 40, 174, 69, 228, 103, 148, 116, 200, 253, 76, 204, 68, 91, 127, 232, 208, 215, 9, 43, 33, 224, 21, 154, 193, 99, 211, 250, 171, 215, 158, 191, 239, 235, 81, 10, 65, 227, 90, 204, 48, 157, 135, 107, 252, 2, 39, 101, 121, 202, 173, 195, 72, 246, 16, 36, 170, 246, 57, 74, 234, 242, 97, 79, 224, 91, 83, 37, 128, 19, 39, 70, 36, 199, 99, 31, 38, 3, 159, 145, 21, 235, 56, 186, 52, 129, 156, 143, 238, 217, 221, 147, 121, 218, 99, 188, 233, 114, 226, 226, 62, 206, 190, 8, 74, 171, 129, 0, 135, 238, 224, 86, 51, 167, 98, 219, 194, 198, 218, 228, 129, 93, 255, 70, 42, 13, 170, 71, 0, 71, 158, 69, 51, 12, 100, 167, 217, 35, 80, 67, 191, 147, 122, 243, 77, 99, 134, 174, 219, 192, 247, 102, 37, 141, 135, 193, 2, 238, 54, 231, 130, 59, 176, 57, 97, 140, 108, 218, 174, 100, 93, 131, 251, 58, 111, 84, 27, 228, 200, 48, 29, 32, 221, 208, 144, 1, 43, 101, 207, 98, 133, 193, 29, 5, 141, 90, 119, 202, 149, 184, 156, 156, 65, 2, 48, 14, 20, 167, 164, 32, 223, 59, 82, 158, 131, 47, 228, 159, 32, 133, 247, 11, 44, 54, 57, 39, 129, 226, 56, 110, 35, 69, 169, 67, 14, 28, 87, 111, 192, 204, 108, 7, 60, 79, 159, 41, 137, 167, 215, 25, 50, 124, 249, 23, 207, 41, 210, 180, 162, 221, 113, 24, 29, 40, 197, 221, 124, 30, 156, 240, 158, 15, 143, 207, 17, 228, 73, 172, 38, 159, 57, 143, 201, 113, 233, 253, 117, 230, 238, 240, 213, 48, 61, 20, 180, 42, 201, 236, 103, 95, 170, 200, 238>>
RealKeys == [gms |-> GmsStream, ems |-> EmsStream, custom |-> CustomStream]
=======================
