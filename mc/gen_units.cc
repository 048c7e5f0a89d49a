// Prints the unit alphabet for the split tool's check as JSON: escaped bytes, type and resolution from the model.
#define MC_LIB
#include "mc_syntax.cc"
#include "units.h"
int main() {
  Ctx c; c.s = (Slot*)calloc(1, sizeof(Slot)); bool first = true; printf("[");
  auto put = [&](const std::string& n, const Bytes& u, const char* grp) { m::Session s; m::Nal x = m::dec_nal(u.data(), u.size(), s); int64_t w = 0, h = 0; if (x.parsed && x.p.sps) { w = x.p.sps->width(); h = x.p.sps->height(); } printf("%s{\"name\":%s,\"grp\":\"%s\",\"type\":%u,\"w\":%lld,\"h\":%lld,\"hex\":\"%s\"}\n", first ? "" : ",", json_str(n).c_str(), grp, (unsigned)(u.empty() ? 0 : u[0] & 31), (long long)w, (long long)h, hex(m::escape(u)).c_str()); first = false; };
  Fix wh{{"pic_width_in_mbs_minus1", 3}, {"pic_height_in_map_units_minus1", 3}}, wide{{"pic_width_in_mbs_minus1", 7}, {"pic_height_in_map_units_minus1", 3}}, tall{{"pic_width_in_mbs_minus1", 3}, {"pic_height_in_map_units_minus1", 7}};
  Fix sar{{"vui_parameters_present_flag", 1}, {"aspect_ratio_info_present_flag", 1}, {"aspect_ratio_idc", 255}, {"sar_width", 16}, {"sar_height", 11}};
  put("sps 64x64", u_sps(c, kA + wh), "core"); put("sps 128x64", u_sps(c, kA + wide), "core"); put("sps 64x128", u_sps(c, kA + tall), "core");
  put("sps id 1 64x64", u_sps(c, kA + wh + id(1)), "core"); put("sps 128x64 sar", u_sps(c, kA + wide + sar), "core"); put("sps 64x64 sar", u_sps(c, kA + wh + sar), "core");
  put("sps 64x64 cropped", u_sps(c, kA + wide + Fix{{"frame_cropping_flag", 1}, {"frame_crop_right_offset", 32}}), "core"); put("pps", u_pps(c, ppid(0, 0)), "core"); put("aud", Bytes{0x09, 0xf0}, "core");
  put("subset sps 128x64", u_sub(c, kA + wide + Fix{{"extended_spatial_scalability_idc", 0}}), "core"); put("sei with text", Bytes{0x06, 0x05, 0x0a, 'w', 'i', 'd', 't', 'h', ':', ' ', '9', '6', 0x20, 0x80}, "core");
  put("bad sps", Bytes{0x67, 0x42, 0x00}, "bad"); put("bad slice", Bytes{0x65, 0x88}, "bad"); put("unreadable", Bytes{0x14, 0x01, 0x02}, "bad");
  for (auto& q : corpus(c, 0)) if (q.units.size() == 1) put(q.name, q.units[0], "base");
  for (auto& q : corpus(c, 1)) if (q.units.size() == 1 && (q.units[0][0] & 31) == 7) put(q.name, q.units[0], "dev");
  printf("]\n");
}
