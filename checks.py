"""Registry: which design models, harness and trace module decide a property."""

CHECKS = {
    "C01": dict(mc=[dict(module="MC_C01")]),
}
CHECKS["C02"] = dict(mc=[dict(module="MC_C02", thorough_cfg="MC_C02_thorough.cfg")])
CHECKS["C03"] = dict(mc=[dict(module="MC_C03")])
CHECKS["C04"] = dict(mc=[dict(module="MC_C04")])
CHECKS["C05"] = dict(mc=[dict(module="MC_C05", thorough_cfg="MC_C05_thorough.cfg")])
CHECKS["C06"] = dict(mc=[dict(module="MC_C06", thorough_cfg="MC_C06_thorough.cfg")])
CHECKS["C07"] = dict(mc=[dict(module="MC_C07", thorough_cfg="MC_C07_thorough.cfg")])
CHECKS["C08"] = dict(mc=[dict(module="MC_C08", thorough_cfg="MC_C08_thorough.cfg"),
                         dict(module="MC_Attempts", thorough_cfg="MC_Attempts_thorough.cfg")],
                     proofs=["Attempts_proof"], modes=["x64"], shards=dict(quick=7, thorough=7))
CHECKS["C09"] = dict(mc=[dict(module="MC_C09", thorough_cfg="MC_C09_thorough.cfg")])
CHECKS["C10"] = dict(mc=[dict(module="MC_C10", thorough_cfg="MC_C10_thorough.cfg")])
CHECKS["C11"] = dict(mc=[dict(module="MC_C11", thorough_cfg="MC_C11_thorough.cfg")])
CHECKS["C12"] = dict(mc=[dict(module="MC_C12", thorough_cfg="MC_C12_thorough.cfg")], modes=["x64", "f32"])
CHECKS["C13"] = dict(mc=[dict(module="MC_C13", thorough_cfg="MC_C13_thorough.cfg")])
CHECKS["C14"] = dict(mc=[dict(module="MC_C14", thorough_cfg="MC_C14_thorough.cfg")])
CHECKS["C15"] = dict(mc=[dict(module="MC_C15", thorough_cfg="MC_C15_thorough.cfg")])
CHECKS["C16"] = dict(mc=[dict(module="MC_C16", thorough_cfg="MC_C16_thorough.cfg")])
CHECKS["C17"] = dict(mc=[dict(module="MC_C17")])
CHECKS["C18"] = dict(mc=[dict(module="MC_C18", thorough_cfg="MC_C18_thorough.cfg")])
CHECKS["C19"] = dict(mc=[dict(module="MC_C19", thorough_cfg="MC_C19_thorough.cfg")])
CHECKS["C20"] = dict(mc=[dict(module="MC_C20", thorough_cfg="MC_C20_thorough.cfg")])
CHECKS["C21"] = dict(mc=[dict(module="MC_C21", thorough_cfg="MC_C21_thorough.cfg")])
CHECKS["C22"] = dict(mc=[dict(module="MC_C22", thorough_cfg="MC_C22_thorough.cfg"),
                         dict(module="MC_C22", cfg="MC_C22_2d.cfg", thorough_cfg="MC_C22_2d_thorough.cfg", name="MC_C22_2d")])
CHECKS["C23"] = dict(mc=[dict(module="MC_C23", thorough_cfg="MC_C23_thorough.cfg")])
CHECKS["C24"] = dict(mc=[dict(module="MC_C24", thorough_cfg="MC_C24_thorough.cfg")])
CHECKS["C25"] = dict(mc=[dict(module="MC_C25")])
CHECKS["C26"] = dict(mc=[dict(module="MC_C26", thorough_cfg="MC_C26_thorough.cfg"),
                         dict(module="MC_C26", cfg="MC_C26_no_option.cfg", name="MC_C26_no_option", expect="violation"),
                         dict(module="MC_C26", cfg="MC_C26_no_shape.cfg", name="MC_C26_no_shape", expect="violation")],
                     trace_cfg="Trace_C26.cfg")
CHECKS["C27"] = dict(mc=[dict(module="MC_C27", thorough_cfg="MC_C27_thorough.cfg"),
                         dict(module="MC_C27", cfg="MC_C27_loop.cfg", thorough_cfg="MC_C27_loop_thorough.cfg", name="MC_C27_loop"),
                         dict(module="MC_C27", cfg="MC_C27_loop.cfg", thorough_cfg="MC_C27_deep.cfg", name="MC_C27_deep"),
                         dict(module="MC_C27", cfg="MC_C27_sched.cfg", thorough_cfg="MC_C27_sched_thorough.cfg", name="MC_C27_sched"),
                         dict(module="MC_C27", cfg="MC_C27_no_meet.cfg", name="MC_C27_no_meet", expect="violation"),
                         dict(module="MC_C27", cfg="MC_C27_glob.cfg", name="MC_C27_glob", expect="violation"),
                         dict(module="MC_Causal", thorough_cfg="MC_Causal_thorough.cfg"),
                         dict(module="MC_Causal", cfg="MC_Causal_three.cfg", thorough_cfg="MC_Causal_three_thorough.cfg", name="MC_Causal_three"),
                         dict(module="MC_Causal", cfg="MC_Causal_blind.cfg", name="MC_Causal_blind", expect="violation"),
                         dict(module="MC_Meeting", thorough_cfg="MC_Meeting_thorough.cfg"),
                         dict(module="MC_Meeting", cfg="MC_Meeting_no_meet.cfg", name="MC_Meeting_no_meet", expect="violation")],
                     proofs=["Partition_proof", "Meeting_proof"])
CHECKS["C28"] = dict(mc=[dict(module="MC_C28", thorough_cfg="MC_C28_thorough.cfg")])
CHECKS["C29"] = dict(mc=[dict(module="MC_C29", thorough_cfg="MC_C29_thorough.cfg"),
                         dict(module="MC_C29", cfg="MC_C29_skip.cfg", name="MC_C29_skip", expect="violation")])
CHECKS["C31"] = dict(mc=[dict(module="MC_C31", thorough_cfg="MC_C31_thorough.cfg"),
                         dict(module="MC_C31", cfg="MC_C31_no_meet.cfg", name="MC_C31_no_meet", expect="violation"),
                         dict(module="MC_C31", cfg="MC_C31_overlap.cfg", name="MC_C31_overlap", expect="violation")])
CHECKS["C32"] = dict(mc=[dict(module="MC_C32", thorough_cfg="MC_C32_thorough.cfg"),
                         dict(module="MC_C32", cfg="MC_C32_last.cfg", name="MC_C32_last", expect="violation"),
                         dict(module="MC_C32", cfg="MC_C32_misfiled.cfg", name="MC_C32_misfiled", expect="violation")])
CHECKS["C30"] = dict(mc=[dict(module="MC_C30", thorough_cfg="MC_C30_thorough.cfg"),
                         dict(module="MC_C30", cfg="MC_C30_text.cfg", name="MC_C30_text", expect="violation")])
CHECKS["C33"] = dict(mc=[dict(module="MC_C33", thorough_cfg="MC_C33_thorough.cfg"),
                         dict(module="MC_C33", cfg="MC_C33_mispaired.cfg", name="MC_C33_mispaired", expect="violation"),
                         dict(module="MC_C33", cfg="MC_C33_mean_of_means.cfg", name="MC_C33_mean_of_means", expect="violation")])
CHECKS["C34"] = dict(mc=[dict(module="MC_C34", thorough_cfg="MC_C34_thorough.cfg"),
                         dict(module="MC_C34", cfg="MC_C34_local.cfg", name="MC_C34_local", expect="violation"),
                         dict(module="MC_C34", cfg="MC_C34_as_written.cfg", name="MC_C34_as_written", expect="violation"),
                         dict(module="MC_C34", cfg="MC_C34_no_meeting.cfg", name="MC_C34_no_meeting", expect="violation")])
