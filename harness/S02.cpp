#include "fileio.hpp"
#include <sys/stat.h>
// Failing writes, opens and closes: a save is complete or reported.
static bool ends_reported(const Saved& o, bool& threw) { sim_cerr_clear(); threw = false; try { o.save("/simfs/a"); } catch (std::exception&) { threw = true; } return threw || sim_cerr_len() > 0; }
static void faults() {
  legal_io();
  switch (sim_fpick(7)) {
    case 0: break; case 1: sim_io.fail_open_at = sim_fpick(2); break; case 2: sim_io.fail_write_at = sim_fpick(sim_fpick(3) ? 2 : 12); break; case 3: sim_io.fail_close_at = sim_fpick(2); break;
    case 4: sim_io.disk_limit = sim_fpick(sim_fpick(2) ? 60 : 9000); break; case 5: sim_io.p_eio_write = 20 + sim_fpick(200); break; default: sim_io.p_enospc = 20 + sim_fpick(200); if (sim_fpick(2)) sim_io.p_close_fail = 100;
  }
}
SIM_SCENARIO(S02, failing_save, 5) {
  swarm_env(); PP() = 0; Saved o = gen_saved(); sim_desc("%s ", o.type); old_file("/simfs/a"); int rounds = rnd(1, 3);
  for (int r = 0; r < rounds; r++) {
    faults(); long f0 = sim_io_write_faults(); bool threw; bool rep = ends_reported(o, threw); bool fired = sim_io_write_faults() > f0; sim_io_reset(); if (rep && fired) sim_probe("failure-reported"); if (fired && !rep) sim_probe("fault-without-loss");
    need(o.now() == o.text, "input-changed", "%s: a save changed the object", o.type); need(sim_fs_open_fds() == 0, "descriptor-leak", "%d files left open", sim_fs_open_fds());
    if (!rep) { need(sim_fs_size("/simfs/a") >= 0, "silent-loss", "%s: save reported nothing and there is no file", o.type); std::string got; try { got = o.load("/simfs/a"); } catch (std::exception& e) { got = std::string("exception ") + e.what(); } need(got == o.text, "silent-loss", "%s: save reported nothing but the file loads as %s instead of %s", o.type, got.c_str(), o.text.c_str()); }
    else need(fired, "spurious-report", "%s: reported a failure although no operation failed: %s", o.type, sim_cerr_text());
  }
  legal_io(); bool threw; bool rep = ends_reported(o, threw); need(!rep, "retry-fails", "%s: saving again without faults: %s", o.type, sim_cerr_text()); std::string got = o.load("/simfs/a"); need(got == o.text, "retry-fails", "%s: saved again without faults, loaded %s instead of %s", o.type, got.c_str(), o.text.c_str()); sim_io_reset();
}
SIM_SCENARIO(S02, no_directory, 1) { // the path cannot exist
  swarm_env(); PP() = 0; Saved o = gen_saved(); legal_io(); sim_cerr_clear(); bool threw = false; static const char* p[] = {"/simfs/none/a", "/simfs/dir"}; int k = sim::pick(2); if (k == 1) mkdir("/simfs/dir", 0777); try { o.save(p[k]); } catch (std::exception&) { threw = true; } need(threw || sim_cerr_len() > 0, "silent-loss", "%s: saving to %s reported nothing", o.type, p[k]); need(o.now() == o.text, "input-changed", "a failed save changed the object"); sim_io_reset(); sim_probe("unusable-path");
}
