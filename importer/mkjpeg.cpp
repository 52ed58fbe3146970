// mkjpeg OUT HEIGHT WIDTH MODE(0 grey, 1 4:4:4, 3 4:2:0) QUALITY SALT : writes a JPEG and OUT.raw, the decoded samples (3 per pixel, RGB)
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <jpeglib.h>
int main(int argc, char **argv) {
    int h = atoi(argv[2]), w = atoi(argv[3]), mode = atoi(argv[4]), q = atoi(argv[5]), salt = atoi(argv[6]), comp = mode == 0 ? 1 : 3;
    jpeg_compress_struct ci; jpeg_error_mgr je; ci.err = jpeg_std_error(&je); jpeg_create_compress(&ci);
    FILE *f = fopen(argv[1], "wb"); jpeg_stdio_dest(&ci, f);
    ci.image_width = w; ci.image_height = h; ci.input_components = comp; ci.in_color_space = comp == 1 ? JCS_GRAYSCALE : JCS_RGB;
    jpeg_set_defaults(&ci); jpeg_set_quality(&ci, q, TRUE);
    if (comp == 3) { ci.comp_info[0].h_samp_factor = ci.comp_info[0].v_samp_factor = mode == 3 ? 2 : 1; }
    jpeg_start_compress(&ci, TRUE); std::vector<unsigned char> row(w * comp); unsigned char *rp = row.data();
    for (int y = 0; y < h; y++) {
        for (int x = 0; x < w; x++) for (int k = 0; k < comp; k++) { int v = salt % 4 == 0 ? (x * (k + 1) + y * 2 + salt * 40) : salt % 4 == 1 ? 60 * k + salt * 13 + (x > y ? 25 : 0) : salt % 4 == 2 ? ((x / 16 + y / 16 + k) & 1) * 190 + salt : 255 - 80 * ((k + salt / 4) % 3) - (x + y) / 8; row[x * comp + k] = (unsigned char) v; }
        jpeg_write_scanlines(&ci, &rp, 1);
    }
    jpeg_finish_compress(&ci); jpeg_destroy_compress(&ci); fclose(f);
    jpeg_decompress_struct di; di.err = jpeg_std_error(&je); jpeg_create_decompress(&di); f = fopen(argv[1], "rb"); jpeg_stdio_src(&di, f); jpeg_read_header(&di, TRUE); di.out_color_space = comp == 1 ? JCS_GRAYSCALE : JCS_RGB;
    jpeg_start_decompress(&di); std::vector<unsigned char> o(w * comp); FILE *r = fopen((std::string(argv[1]) + ".raw").c_str(), "wb");
    while (di.output_scanline < di.output_height) { unsigned char *p = o.data(); jpeg_read_scanlines(&di, &p, 1); for (int x = 0; x < w; x++) for (int k = 0; k < 3; k++) fputc(o[x * comp + (comp == 1 ? 0 : k)], r); }
    jpeg_finish_decompress(&di); fclose(r); fclose(f); return 0;
}
