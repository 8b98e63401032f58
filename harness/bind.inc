// script class, member, native class, field, refers to a function, group: members of one group exist together or not at all, "opt" ones individually
M("C_GILVALUES", "WATER_DEPTH_KNEE", IGuildValues, water_depth_knee, 0, "")
M("C_GILVALUES", "WATER_DEPTH_CHEST", IGuildValues, water_depth_chest, 0, "")
M("C_GILVALUES", "JUMPUP_HEIGHT", IGuildValues, jumpup_height, 0, "")
M("C_GILVALUES", "SWIM_TIME", IGuildValues, swim_time, 0, "")
M("C_GILVALUES", "DIVE_TIME", IGuildValues, dive_time, 0, "")
M("C_GILVALUES", "STEP_HEIGHT", IGuildValues, step_height, 0, "")
M("C_GILVALUES", "JUMPLOW_HEIGHT", IGuildValues, jumplow_height, 0, "")
M("C_GILVALUES", "JUMPMID_HEIGHT", IGuildValues, jumpmid_height, 0, "")
M("C_GILVALUES", "SLIDE_ANGLE", IGuildValues, slide_angle, 0, "")
M("C_GILVALUES", "SLIDE_ANGLE2", IGuildValues, slide_angle2, 0, "")
M("C_GILVALUES", "DISABLE_AUTOROLL", IGuildValues, disable_autoroll, 0, "")
M("C_GILVALUES", "SURFACE_ALIGN", IGuildValues, surface_align, 0, "")
M("C_GILVALUES", "CLIMB_HEADING_ANGLE", IGuildValues, climb_heading_angle, 0, "")
M("C_GILVALUES", "CLIMB_HORIZ_ANGLE", IGuildValues, climb_horiz_angle, 0, "")
M("C_GILVALUES", "CLIMB_GROUND_ANGLE", IGuildValues, climb_ground_angle, 0, "")
M("C_GILVALUES", "FIGHT_RANGE_BASE", IGuildValues, fight_range_base, 0, "")
M("C_GILVALUES", "FIGHT_RANGE_FIST", IGuildValues, fight_range_fist, 0, "")
M("C_GILVALUES", "FIGHT_RANGE_1HS", IGuildValues, fight_range_1hs, 0, "")
M("C_GILVALUES", "FIGHT_RANGE_1HA", IGuildValues, fight_range_1ha, 0, "")
M("C_GILVALUES", "FIGHT_RANGE_2HS", IGuildValues, fight_range_2hs, 0, "")
M("C_GILVALUES", "FIGHT_RANGE_2HA", IGuildValues, fight_range_2ha, 0, "")
M("C_GILVALUES", "FALLDOWN_HEIGHT", IGuildValues, falldown_height, 0, "")
M("C_GILVALUES", "FALLDOWN_DAMAGE", IGuildValues, falldown_damage, 0, "")
M("C_GILVALUES", "BLOOD_DISABLED", IGuildValues, blood_disabled, 0, "")
M("C_GILVALUES", "BLOOD_MAX_DISTANCE", IGuildValues, blood_max_distance, 0, "")
M("C_GILVALUES", "BLOOD_AMOUNT", IGuildValues, blood_amount, 0, "")
M("C_GILVALUES", "BLOOD_FLOW", IGuildValues, blood_flow, 0, "")
M("C_GILVALUES", "BLOOD_EMITTER", IGuildValues, blood_emitter, 0, "")
M("C_GILVALUES", "BLOOD_TEXTURE", IGuildValues, blood_texture, 0, "")
M("C_GILVALUES", "TURN_SPEED", IGuildValues, turn_speed, 0, "")
M("C_GILVALUES", "FIGHT_RANGE_G", IGuildValues, fight_range_g, 0, "FIGHT_RANGE_G")
M("C_FIGHTAI", "MOVE", IFightAi, move, 0, "")
M("C_SFX", "FILE", ISoundEffect, file, 0, "")
M("C_SFX", "PITCHOFF", ISoundEffect, pitch_off, 0, "")
M("C_SFX", "PITCHVAR", ISoundEffect, pitch_var, 0, "")
M("C_SFX", "VOL", ISoundEffect, vol, 0, "")
M("C_SFX", "LOOP", ISoundEffect, loop, 0, "")
M("C_SFX", "LOOPSTARTOFFSET", ISoundEffect, loop_start_offset, 0, "")
M("C_SFX", "LOOPENDOFFSET", ISoundEffect, loop_end_offset, 0, "")
M("C_SFX", "REVERBLEVEL", ISoundEffect, reverb_level, 0, "")
M("C_SFX", "PFXNAME", ISoundEffect, pfx_name, 0, "")
M("C_SNDSYS_CFG", "VOLUME", ISoundSystem, volume, 0, "")
M("C_SNDSYS_CFG", "BITRESOLUTION", ISoundSystem, bit_resolution, 0, "")
M("C_SNDSYS_CFG", "SAMPLERATE", ISoundSystem, sample_rate, 0, "")
M("C_SNDSYS_CFG", "USESTEREO", ISoundSystem, use_stereo, 0, "")
M("C_SNDSYS_CFG", "NUMSFXCHANNELS", ISoundSystem, num_sfx_channels, 0, "")
M("C_SNDSYS_CFG", "USED3DPROVIDERNAME", ISoundSystem, used_3d_provider_name, 0, "")
M("C_PARTICLEFXEMITKEY", "VISNAME_S", IParticleEffectEmitKey, vis_name_s, 0, "")
M("C_PARTICLEFXEMITKEY", "VISSIZESCALE", IParticleEffectEmitKey, vis_size_scale, 0, "")
M("C_PARTICLEFXEMITKEY", "SCALEDURATION", IParticleEffectEmitKey, scale_duration, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_PPSVALUE", IParticleEffectEmitKey, pfx_pps_value, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_PPSISSMOOTHCHG", IParticleEffectEmitKey, pfx_pps_is_smooth_chg, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_PPSISLOOPINGCHG", IParticleEffectEmitKey, pfx_pps_is_looping_chg, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_SCTIME", IParticleEffectEmitKey, pfx_sc_time, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_FLYGRAVITY_S", IParticleEffectEmitKey, pfx_fly_gravity_s, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_SHPDIM_S", IParticleEffectEmitKey, pfx_shp_dim_s, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_SHPISVOLUMECHG", IParticleEffectEmitKey, pfx_shp_is_volume_chg, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_SHPSCALEFPS", IParticleEffectEmitKey, pfx_shp_scale_fps, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_SHPDISTRIBWALKSPEED", IParticleEffectEmitKey, pfx_shp_distrib_walks_peed, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_SHPOFFSETVEC_S", IParticleEffectEmitKey, pfx_shp_offset_vec_s, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_SHPDISTRIBTYPE_S", IParticleEffectEmitKey, pfx_shp_distrib_type_s, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_DIRMODE_S", IParticleEffectEmitKey, pfx_dir_mode_s, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_DIRFOR_S", IParticleEffectEmitKey, pfx_dir_for_s, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_DIRMODETARGETFOR_S", IParticleEffectEmitKey, pfx_dir_mode_target_for_s, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_DIRMODETARGETPOS_S", IParticleEffectEmitKey, pfx_dir_mode_target_pos_s, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_VELAVG", IParticleEffectEmitKey, pfx_vel_avg, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_LSPPARTAVG", IParticleEffectEmitKey, pfx_lsp_part_avg, 0, "")
M("C_PARTICLEFXEMITKEY", "PFX_VISALPHASTART", IParticleEffectEmitKey, pfx_vis_alpha_start, 0, "")
M("C_PARTICLEFXEMITKEY", "LIGHTPRESETNAME", IParticleEffectEmitKey, light_preset_name, 0, "")
M("C_PARTICLEFXEMITKEY", "LIGHTRANGE", IParticleEffectEmitKey, light_range, 0, "")
M("C_PARTICLEFXEMITKEY", "SFXID", IParticleEffectEmitKey, sfx_id, 0, "")
M("C_PARTICLEFXEMITKEY", "SFXISAMBIENT", IParticleEffectEmitKey, sfx_is_ambient, 0, "")
M("C_PARTICLEFXEMITKEY", "EMCREATEFXID", IParticleEffectEmitKey, em_create_fx_id, 0, "")
M("C_PARTICLEFXEMITKEY", "EMFLYGRAVITY", IParticleEffectEmitKey, em_fly_gravity, 0, "")
M("C_PARTICLEFXEMITKEY", "EMSELFROTVEL_S", IParticleEffectEmitKey, em_self_rot_vel_s, 0, "")
M("C_PARTICLEFXEMITKEY", "EMTRJMODE_S", IParticleEffectEmitKey, em_trj_mode_s, 0, "")
M("C_PARTICLEFXEMITKEY", "EMTRJEASEVEL", IParticleEffectEmitKey, em_trj_ease_vel, 0, "")
M("C_PARTICLEFXEMITKEY", "EMCHECKCOLLISION", IParticleEffectEmitKey, em_check_collision, 0, "")
M("C_PARTICLEFXEMITKEY", "EMFXLIFESPAN", IParticleEffectEmitKey, em_fx_lifespan, 0, "")
M("C_NPC", "ID", INpc, id, 0, "")
M("C_NPC", "NAME", INpc, name, 0, "")
M("C_NPC", "SLOT", INpc, slot, 0, "")
M("C_NPC", "NPCTYPE", INpc, type, 0, "")
M("C_NPC", "FLAGS", INpc, flags, 0, "")
M("C_NPC", "ATTRIBUTE", INpc, attribute, 0, "")
M("C_NPC", "PROTECTION", INpc, protection, 0, "")
M("C_NPC", "DAMAGE", INpc, damage, 0, "")
M("C_NPC", "DAMAGETYPE", INpc, damage_type, 0, "")
M("C_NPC", "GUILD", INpc, guild, 0, "")
M("C_NPC", "LEVEL", INpc, level, 0, "")
M("C_NPC", "MISSION", INpc, mission, 1, "")
M("C_NPC", "FIGHT_TACTIC", INpc, fight_tactic, 0, "")
M("C_NPC", "WEAPON", INpc, weapon, 0, "")
M("C_NPC", "VOICE", INpc, voice, 0, "")
M("C_NPC", "VOICEPITCH", INpc, voice_pitch, 0, "")
M("C_NPC", "BODYMASS", INpc, body_mass, 0, "")
M("C_NPC", "DAILY_ROUTINE", INpc, daily_routine, 1, "")
M("C_NPC", "START_AISTATE", INpc, start_aistate, 1, "")
M("C_NPC", "SPAWNPOINT", INpc, spawnpoint, 0, "")
M("C_NPC", "SPAWNDELAY", INpc, spawn_delay, 0, "")
M("C_NPC", "SENSES", INpc, senses, 0, "")
M("C_NPC", "SENSES_RANGE", INpc, senses_range, 0, "")
M("C_NPC", "AIVAR", INpc, aivar, 0, "")
M("C_NPC", "WP", INpc, wp, 0, "")
M("C_NPC", "EXP", INpc, exp, 0, "")
M("C_NPC", "EXP_NEXT", INpc, exp_next, 0, "")
M("C_NPC", "LP", INpc, lp, 0, "")
M("C_NPC", "HITCHANCE", INpc, hitchance, 0, "HITCHANCE")
M("C_NPC", "BODYSTATEINTERRUPTABLEOVERRIDE", INpc, bodystate_interruptable_override, 0, "HITCHANCE")
M("C_NPC", "NOFOCUS", INpc, no_focus, 0, "HITCHANCE")
M("C_NPC", "EFFECT", INpc, effect, 0, "EFFECT")
M("C_MISSION", "NAME", IMission, name, 0, "")
M("C_MISSION", "DESCRIPTION", IMission, description, 0, "")
M("C_MISSION", "DURATION", IMission, duration, 0, "")
M("C_MISSION", "IMPORTANT", IMission, important, 0, "")
M("C_MISSION", "OFFERCONDITIONS", IMission, offer_conditions, 1, "")
M("C_MISSION", "OFFER", IMission, offer, 1, "")
M("C_MISSION", "SUCCESSCONDITIONS", IMission, success_conditions, 1, "")
M("C_MISSION", "SUCCESS", IMission, success, 1, "")
M("C_MISSION", "FAILURECONDITIONS", IMission, failure_conditions, 1, "")
M("C_MISSION", "FAILURE", IMission, failure, 1, "")
M("C_MISSION", "OBSOLETECONDITIONS", IMission, obsolete_conditions, 1, "")
M("C_MISSION", "OBSOLETE", IMission, obsolete, 1, "")
M("C_MISSION", "RUNNING", IMission, running, 1, "")
M("C_ITEM", "ID", IItem, id, 0, "")
M("C_ITEM", "NAME", IItem, name, 0, "")
M("C_ITEM", "NAMEID", IItem, name_id, 0, "")
M("C_ITEM", "HP", IItem, hp, 0, "")
M("C_ITEM", "HP_MAX", IItem, hp_max, 0, "")
M("C_ITEM", "MAINFLAG", IItem, main_flag, 0, "")
M("C_ITEM", "FLAGS", IItem, flags, 0, "")
M("C_ITEM", "WEIGHT", IItem, weight, 0, "")
M("C_ITEM", "VALUE", IItem, value, 0, "")
M("C_ITEM", "DAMAGETYPE", IItem, damage_type, 0, "")
M("C_ITEM", "DAMAGETOTAL", IItem, damage_total, 0, "")
M("C_ITEM", "DAMAGE", IItem, damage, 0, "")
M("C_ITEM", "WEAR", IItem, wear, 0, "")
M("C_ITEM", "PROTECTION", IItem, protection, 0, "")
M("C_ITEM", "NUTRITION", IItem, nutrition, 0, "")
M("C_ITEM", "COND_ATR", IItem, cond_atr, 0, "")
M("C_ITEM", "COND_VALUE", IItem, cond_value, 0, "")
M("C_ITEM", "CHANGE_ATR", IItem, change_atr, 0, "")
M("C_ITEM", "CHANGE_VALUE", IItem, change_value, 0, "")
M("C_ITEM", "MAGIC", IItem, magic, 1, "")
M("C_ITEM", "ON_EQUIP", IItem, on_equip, 1, "")
M("C_ITEM", "ON_UNEQUIP", IItem, on_unequip, 1, "")
M("C_ITEM", "ON_STATE", IItem, on_state, 1, "")
M("C_ITEM", "OWNER", IItem, owner, 1, "")
M("C_ITEM", "OWNERGUILD", IItem, owner_guild, 0, "")
M("C_ITEM", "DISGUISEGUILD", IItem, disguise_guild, 0, "")
M("C_ITEM", "VISUAL", IItem, visual, 0, "")
M("C_ITEM", "VISUAL_CHANGE", IItem, visual_change, 0, "")
M("C_ITEM", "VISUAL_SKIN", IItem, visual_skin, 0, "")
M("C_ITEM", "SCEMENAME", IItem, scheme_name, 0, "")
M("C_ITEM", "MATERIAL", IItem, material, 0, "")
M("C_ITEM", "MUNITION", IItem, munition, 0, "")
M("C_ITEM", "SPELL", IItem, spell, 0, "")
M("C_ITEM", "RANGE", IItem, range, 0, "")
M("C_ITEM", "MAG_CIRCLE", IItem, mag_circle, 0, "")
M("C_ITEM", "DESCRIPTION", IItem, description, 0, "")
M("C_ITEM", "TEXT", IItem, text, 0, "")
M("C_ITEM", "COUNT", IItem, count, 0, "")
M("C_ITEM", "INV_ZBIAS", IItem, inv_zbias, 0, "INV_ZBIAS")
M("C_ITEM", "INV_ROTX", IItem, inv_rot_x, 0, "INV_ZBIAS")
M("C_ITEM", "INV_ROTY", IItem, inv_rot_y, 0, "INV_ZBIAS")
M("C_ITEM", "INV_ROTZ", IItem, inv_rot_z, 0, "INV_ZBIAS")
M("C_ITEM", "INV_ANIMATE", IItem, inv_animate, 0, "INV_ZBIAS")
M("C_ITEM", "EFFECT", IItem, effect, 0, "EFFECT")
M("C_FOCUS", "NPC_LONGRANGE", IFocus, npc_longrange, 0, "")
M("C_FOCUS", "NPC_RANGE1", IFocus, npc_range1, 0, "")
M("C_FOCUS", "NPC_RANGE2", IFocus, npc_range2, 0, "")
M("C_FOCUS", "NPC_AZI", IFocus, npc_azi, 0, "")
M("C_FOCUS", "NPC_ELEVDO", IFocus, npc_elevdo, 0, "")
M("C_FOCUS", "NPC_ELEVUP", IFocus, npc_elevup, 0, "")
M("C_FOCUS", "NPC_PRIO", IFocus, npc_prio, 0, "")
M("C_FOCUS", "ITEM_RANGE1", IFocus, item_range1, 0, "")
M("C_FOCUS", "ITEM_RANGE2", IFocus, item_range2, 0, "")
M("C_FOCUS", "ITEM_AZI", IFocus, item_azi, 0, "")
M("C_FOCUS", "ITEM_ELEVDO", IFocus, item_elevdo, 0, "")
M("C_FOCUS", "ITEM_ELEVUP", IFocus, item_elevup, 0, "")
M("C_FOCUS", "ITEM_PRIO", IFocus, item_prio, 0, "")
M("C_FOCUS", "MOB_RANGE1", IFocus, mob_range1, 0, "")
M("C_FOCUS", "MOB_RANGE2", IFocus, mob_range2, 0, "")
M("C_FOCUS", "MOB_AZI", IFocus, mob_azi, 0, "")
M("C_FOCUS", "MOB_ELEVDO", IFocus, mob_elevdo, 0, "")
M("C_FOCUS", "MOB_ELEVUP", IFocus, mob_elevup, 0, "")
M("C_FOCUS", "MOB_PRIO", IFocus, mob_prio, 0, "")
M("C_INFO", "NPC", IInfo, npc, 0, "")
M("C_INFO", "NR", IInfo, nr, 0, "")
M("C_INFO", "IMPORTANT", IInfo, important, 0, "")
M("C_INFO", "CONDITION", IInfo, condition, 1, "")
M("C_INFO", "INFORMATION", IInfo, information, 1, "")
M("C_INFO", "DESCRIPTION", IInfo, description, 0, "")
M("C_INFO", "TRADE", IInfo, trade, 0, "")
M("C_INFO", "PERMANENT", IInfo, permanent, 0, "")
M("C_ITEMREACT", "NPC", IItemReact, npc, 0, "")
M("C_ITEMREACT", "TRADE_ITEM", IItemReact, trade_item, 0, "")
M("C_ITEMREACT", "TRADE_AMOUNT", IItemReact, trade_amount, 0, "")
M("C_ITEMREACT", "REQUESTED_CAT", IItemReact, requested_cat, 0, "")
M("C_ITEMREACT", "REQUESTED_ITEM", IItemReact, requested_item, 0, "")
M("C_ITEMREACT", "REQUESTED_AMOUNT", IItemReact, requested_amount, 0, "")
M("C_ITEMREACT", "REACTION", IItemReact, reaction, 1, "")
M("C_SPELL", "TIME_PER_MANA", ISpell, time_per_mana, 0, "")
M("C_SPELL", "DAMAGE_PER_LEVEL", ISpell, damage_per_level, 0, "")
M("C_SPELL", "DAMAGETYPE", ISpell, damage_type, 0, "")
M("C_SPELL", "SPELLTYPE", ISpell, spell_type, 0, "")
M("C_SPELL", "CANTURNDURINGINVEST", ISpell, can_turn_during_invest, 0, "")
M("C_SPELL", "CANCHANGETARGETDURINGINVEST", ISpell, can_change_target_during_invest, 0, "")
M("C_SPELL", "ISMULTIEFFECT", ISpell, is_multi_effect, 0, "")
M("C_SPELL", "TARGETCOLLECTALGO", ISpell, target_collect_algo, 0, "")
M("C_SPELL", "TARGETCOLLECTTYPE", ISpell, target_collect_type, 0, "")
M("C_SPELL", "TARGETCOLLECTRANGE", ISpell, target_collect_range, 0, "")
M("C_SPELL", "TARGETCOLLECTAZI", ISpell, target_collect_azi, 0, "")
M("C_SPELL", "TARGETCOLLECTELEV", ISpell, target_collect_elev, 0, "")
M("C_SVM", "MILGREETINGS", ISvm, mil_greetings, 0, "opt")
M("C_SVM", "PALGREETINGS", ISvm, pal_greetings, 0, "opt")
M("C_SVM", "WEATHER", ISvm, weather, 0, "opt")
M("C_SVM", "IGETYOUSTILL", ISvm, iget_you_still, 0, "opt")
M("C_SVM", "DIEENEMY", ISvm, die_enemy, 0, "opt")
M("C_SVM", "DIEMONSTER", ISvm, die_monster, 0, "opt")
M("C_SVM", "ADDON_DIEMONSTER", ISvm, addon_die_monster, 0, "opt")
M("C_SVM", "ADDON_DIEMONSTER2", ISvm, addon_die_monster_2, 0, "opt")
M("C_SVM", "DIRTYTHIEF", ISvm, dirty_thief, 0, "opt")
M("C_SVM", "HANDSOFF", ISvm, hands_off, 0, "opt")
M("C_SVM", "SHEEPKILLER", ISvm, sheep_killer, 0, "opt")
M("C_SVM", "SHEEPKILLERMONSTER", ISvm, sheep_killer_monster, 0, "opt")
M("C_SVM", "YOUMURDERER", ISvm, you_murderer, 0, "opt")
M("C_SVM", "DIESTUPIDBEAST", ISvm, die_stupid_beast, 0, "opt")
M("C_SVM", "YOUDAREHITME", ISvm, you_dare_hit_me, 0, "opt")
M("C_SVM", "YOUASKEDFORIT", ISvm, you_asked_for_it, 0, "opt")
M("C_SVM", "THENIBEATYOUOUTOFHERE", ISvm, then_ibeat_you_out_of_here, 0, "opt")
M("C_SVM", "WHATDIDYOUDOINTHERE", ISvm, what_did_you_do_in_there, 0, "opt")
M("C_SVM", "WILLYOUSTOPFIGHTING", ISvm, will_you_stop_fighting, 0, "opt")
M("C_SVM", "KILLENEMY", ISvm, kill_enemy, 0, "opt")
M("C_SVM", "ENEMYKILLED", ISvm, enemy_killed, 0, "opt")
M("C_SVM", "MONSTERKILLED", ISvm, monster_killed, 0, "opt")
M("C_SVM", "ADDON_MONSTERKILLED", ISvm, addon_monster_killed, 0, "opt")
M("C_SVM", "ADDON_MONSTERKILLED2", ISvm, addon_monster_killed_2, 0, "opt")
M("C_SVM", "THIEFDOWN", ISvm, thief_down, 0, "opt")
M("C_SVM", "RUMFUMMLERDOWN", ISvm, rumfummler_down, 0, "opt")
M("C_SVM", "SHEEPATTACKERDOWN", ISvm, sheep_attacker_down, 0, "opt")
M("C_SVM", "KILLMURDERER", ISvm, kill_murderer, 0, "opt")
M("C_SVM", "STUPIDBEASTKILLED", ISvm, stupid_beast_killed, 0, "opt")
M("C_SVM", "NEVERHITMEAGAIN", ISvm, never_hit_me_again, 0, "opt")
M("C_SVM", "YOUBETTERSHOULDHAVELISTENED", ISvm, you_better_should_have_listened, 0, "opt")
M("C_SVM", "GETUPANDBEGONE", ISvm, get_up_and_begone, 0, "opt")
M("C_SVM", "NEVERENTERROOMAGAIN", ISvm, never_enter_room_again, 0, "opt")
M("C_SVM", "THEREISNOFIGHTINGHERE", ISvm, there_is_no_fighting_here, 0, "opt")
M("C_SVM", "SPAREME", ISvm, spare_me, 0, "opt")
M("C_SVM", "RUNAWAY", ISvm, run_away, 0, "opt")
M("C_SVM", "ALARM", ISvm, alarm, 0, "opt")
M("C_SVM", "GUARDS", ISvm, guards, 0, "opt")
M("C_SVM", "HELP", ISvm, help, 0, "opt")
M("C_SVM", "GOODMONSTERKILL", ISvm, good_monster_kill, 0, "opt")
M("C_SVM", "GOODKILL", ISvm, good_kill, 0, "opt")
M("C_SVM", "NOTNOW", ISvm, not_now, 0, "opt")
M("C_SVM", "RUNCOWARD", ISvm, run_coward, 0, "opt")
M("C_SVM", "GETOUTOFHERE", ISvm, get_out_of_here, 0, "opt")
M("C_SVM", "WHYAREYOUINHERE", ISvm, why_are_you_in_here, 0, "opt")
M("C_SVM", "YESGOOUTOFHERE", ISvm, yes_go_out_of_here, 0, "opt")
M("C_SVM", "WHATSTHISSUPPOSEDTOBE", ISvm, whats_this_supposed_to_be, 0, "opt")
M("C_SVM", "YOUDISTURBEDMYSLUMBER", ISvm, you_disturbed_my_slumber, 0, "opt")
M("C_SVM", "ITOOKYOURGOLD", ISvm, itook_your_gold, 0, "opt")
M("C_SVM", "SHITNOGOLD", ISvm, shit_no_gold, 0, "opt")
M("C_SVM", "ITAKEYOURWEAPON", ISvm, itake_your_weapon, 0, "opt")
M("C_SVM", "WHATAREYOUDOING", ISvm, what_are_you_doing, 0, "opt")
M("C_SVM", "LOOKINGFORTROUBLEAGAIN", ISvm, looking_for_trouble_again, 0, "opt")
M("C_SVM", "STOPMAGIC", ISvm, stop_magic, 0, "opt")
M("C_SVM", "ISAIDSTOPMAGIC", ISvm, isaid_stop_magic, 0, "opt")
M("C_SVM", "WEAPONDOWN", ISvm, weapon_down, 0, "opt")
M("C_SVM", "ISAIDWEAPONDOWN", ISvm, isaid_weapon_down, 0, "opt")
M("C_SVM", "WISEMOVE", ISvm, wise_move, 0, "opt")
M("C_SVM", "NEXTTIMEYOUREINFORIT", ISvm, next_time_youre_in_for_it, 0, "opt")
M("C_SVM", "OHMYHEAD", ISvm, oh_my_head, 0, "opt")
M("C_SVM", "THERESAFIGHT", ISvm, theres_afight, 0, "opt")
M("C_SVM", "OHMYGODITSAFIGHT", ISvm, oh_my_god_its_afight, 0, "opt")
M("C_SVM", "GOODVICTORY", ISvm, good_victory, 0, "opt")
M("C_SVM", "NOTBAD", ISvm, not_bad, 0, "opt")
M("C_SVM", "OHMYGODHESDOWN", ISvm, oh_my_god_hes_down, 0, "opt")
M("C_SVM", "CHEERFRIEND01", ISvm, cheer_friend_01, 0, "opt")
M("C_SVM", "CHEERFRIEND02", ISvm, cheer_friend_02, 0, "opt")
M("C_SVM", "CHEERFRIEND03", ISvm, cheer_friend_03, 0, "opt")
M("C_SVM", "OOH01", ISvm, ooh_01, 0, "opt")
M("C_SVM", "OOH02", ISvm, ooh_02, 0, "opt")
M("C_SVM", "OOH03", ISvm, ooh_03, 0, "opt")
M("C_SVM", "WHATWASTHAT", ISvm, what_was_that, 0, "opt")
M("C_SVM", "GETOUTOFMYBED", ISvm, get_out_of_my_bed, 0, "opt")
M("C_SVM", "AWAKE", ISvm, awake, 0, "opt")
M("C_SVM", "ABS_COMMANDER", ISvm, abs_commander, 0, "opt")
M("C_SVM", "ABS_MONASTERY", ISvm, abs_monastery, 0, "opt")
M("C_SVM", "ABS_FARM", ISvm, abs_farm, 0, "opt")
M("C_SVM", "ABS_GOOD", ISvm, abs_good, 0, "opt")
M("C_SVM", "SHEEPKILLER_CRIME", ISvm, sheep_killer_crime, 0, "opt")
M("C_SVM", "ATTACK_CRIME", ISvm, attack_crime, 0, "opt")
M("C_SVM", "THEFT_CRIME", ISvm, theft_crime, 0, "opt")
M("C_SVM", "MURDER_CRIME", ISvm, murder_crime, 0, "opt")
M("C_SVM", "PAL_CITY_CRIME", ISvm, pal_city_crime, 0, "opt")
M("C_SVM", "MIL_CITY_CRIME", ISvm, mil_city_crime, 0, "opt")
M("C_SVM", "CITY_CRIME", ISvm, city_crime, 0, "opt")
M("C_SVM", "MONA_CRIME", ISvm, mona_crime, 0, "opt")
M("C_SVM", "FARM_CRIME", ISvm, farm_crime, 0, "opt")
M("C_SVM", "OC_CRIME", ISvm, oc_crime, 0, "opt")
M("C_SVM", "TOUGHGUY_ATTACKLOST", ISvm, toughguy_attack_lost, 0, "opt")
M("C_SVM", "TOUGHGUY_ATTACKWON", ISvm, toughguy_attack_won, 0, "opt")
M("C_SVM", "TOUGHGUY_PLAYERATTACK", ISvm, toughguy_player_attack, 0, "opt")
M("C_SVM", "GOLD_1000", ISvm, gold_1000, 0, "opt")
M("C_SVM", "GOLD_950", ISvm, gold_950, 0, "opt")
M("C_SVM", "GOLD_900", ISvm, gold_900, 0, "opt")
M("C_SVM", "GOLD_850", ISvm, gold_850, 0, "opt")
M("C_SVM", "GOLD_800", ISvm, gold_800, 0, "opt")
M("C_SVM", "GOLD_750", ISvm, gold_750, 0, "opt")
M("C_SVM", "GOLD_700", ISvm, gold_700, 0, "opt")
M("C_SVM", "GOLD_650", ISvm, gold_650, 0, "opt")
M("C_SVM", "GOLD_600", ISvm, gold_600, 0, "opt")
M("C_SVM", "GOLD_550", ISvm, gold_550, 0, "opt")
M("C_SVM", "GOLD_500", ISvm, gold_500, 0, "opt")
M("C_SVM", "GOLD_450", ISvm, gold_450, 0, "opt")
M("C_SVM", "GOLD_400", ISvm, gold_400, 0, "opt")
M("C_SVM", "GOLD_350", ISvm, gold_350, 0, "opt")
M("C_SVM", "GOLD_300", ISvm, gold_300, 0, "opt")
M("C_SVM", "GOLD_250", ISvm, gold_250, 0, "opt")
M("C_SVM", "GOLD_200", ISvm, gold_200, 0, "opt")
M("C_SVM", "GOLD_150", ISvm, gold_150, 0, "opt")
M("C_SVM", "GOLD_100", ISvm, gold_100, 0, "opt")
M("C_SVM", "GOLD_90", ISvm, gold_90, 0, "opt")
M("C_SVM", "GOLD_80", ISvm, gold_80, 0, "opt")
M("C_SVM", "GOLD_70", ISvm, gold_70, 0, "opt")
M("C_SVM", "GOLD_60", ISvm, gold_60, 0, "opt")
M("C_SVM", "GOLD_50", ISvm, gold_50, 0, "opt")
M("C_SVM", "GOLD_40", ISvm, gold_40, 0, "opt")
M("C_SVM", "GOLD_30", ISvm, gold_30, 0, "opt")
M("C_SVM", "GOLD_20", ISvm, gold_20, 0, "opt")
M("C_SVM", "GOLD_10", ISvm, gold_10, 0, "opt")
M("C_SVM", "SMALLTALK01", ISvm, smalltalk_01, 0, "opt")
M("C_SVM", "SMALLTALK02", ISvm, smalltalk_02, 0, "opt")
M("C_SVM", "SMALLTALK03", ISvm, smalltalk_03, 0, "opt")
M("C_SVM", "SMALLTALK04", ISvm, smalltalk_04, 0, "opt")
M("C_SVM", "SMALLTALK05", ISvm, smalltalk_05, 0, "opt")
M("C_SVM", "SMALLTALK06", ISvm, smalltalk_06, 0, "opt")
M("C_SVM", "SMALLTALK07", ISvm, smalltalk_07, 0, "opt")
M("C_SVM", "SMALLTALK08", ISvm, smalltalk_08, 0, "opt")
M("C_SVM", "SMALLTALK09", ISvm, smalltalk_09, 0, "opt")
M("C_SVM", "SMALLTALK10", ISvm, smalltalk_10, 0, "opt")
M("C_SVM", "SMALLTALK11", ISvm, smalltalk_11, 0, "opt")
M("C_SVM", "SMALLTALK12", ISvm, smalltalk_12, 0, "opt")
M("C_SVM", "SMALLTALK13", ISvm, smalltalk_13, 0, "opt")
M("C_SVM", "SMALLTALK14", ISvm, smalltalk_14, 0, "opt")
M("C_SVM", "SMALLTALK15", ISvm, smalltalk_15, 0, "opt")
M("C_SVM", "SMALLTALK16", ISvm, smalltalk_16, 0, "opt")
M("C_SVM", "SMALLTALK17", ISvm, smalltalk_17, 0, "opt")
M("C_SVM", "SMALLTALK18", ISvm, smalltalk_18, 0, "opt")
M("C_SVM", "SMALLTALK19", ISvm, smalltalk_19, 0, "opt")
M("C_SVM", "SMALLTALK20", ISvm, smalltalk_20, 0, "opt")
M("C_SVM", "SMALLTALK21", ISvm, smalltalk_21, 0, "opt")
M("C_SVM", "SMALLTALK22", ISvm, smalltalk_22, 0, "opt")
M("C_SVM", "SMALLTALK23", ISvm, smalltalk_23, 0, "opt")
M("C_SVM", "SMALLTALK24", ISvm, smalltalk_24, 0, "opt")
M("C_SVM", "SMALLTALK25", ISvm, smalltalk_25, 0, "opt")
M("C_SVM", "SMALLTALK26", ISvm, smalltalk_26, 0, "opt")
M("C_SVM", "SMALLTALK27", ISvm, smalltalk_27, 0, "opt")
M("C_SVM", "SMALLTALK28", ISvm, smalltalk_28, 0, "opt")
M("C_SVM", "SMALLTALK29", ISvm, smalltalk_29, 0, "opt")
M("C_SVM", "SMALLTALK30", ISvm, smalltalk_30, 0, "opt")
M("C_SVM", "NOLEARNNOPOINTS", ISvm, no_learn_no_points, 0, "opt")
M("C_SVM", "NOLEARNOVERPERSONALMAX", ISvm, no_learn_over_personal_max, 0, "opt")
M("C_SVM", "NOLEARNYOUREBETTER", ISvm, no_learn_youre_better, 0, "opt")
M("C_SVM", "YOULEARNEDSOMETHING", ISvm, you_learned_something, 0, "opt")
M("C_SVM", "UNTERSTADT", ISvm, unterstadt, 0, "opt")
M("C_SVM", "OBERSTADT", ISvm, oberstadt, 0, "opt")
M("C_SVM", "TEMPEL", ISvm, tempel, 0, "opt")
M("C_SVM", "MARKT", ISvm, markt, 0, "opt")
M("C_SVM", "GALGEN", ISvm, galgen, 0, "opt")
M("C_SVM", "KASERNE", ISvm, kaserne, 0, "opt")
M("C_SVM", "HAFEN", ISvm, hafen, 0, "opt")
M("C_SVM", "WHERETO", ISvm, whereto, 0, "opt")
M("C_SVM", "OBERSTADT_2_UNTERSTADT", ISvm, oberstadt_2_unterstadt, 0, "opt")
M("C_SVM", "UNTERSTADT_2_OBERSTADT", ISvm, unterstadt_2_oberstadt, 0, "opt")
M("C_SVM", "UNTERSTADT_2_TEMPEL", ISvm, unterstadt_2_tempel, 0, "opt")
M("C_SVM", "UNTERSTADT_2_HAFEN", ISvm, unterstadt_2_hafen, 0, "opt")
M("C_SVM", "TEMPEL_2_UNTERSTADT", ISvm, tempel_2_unterstadt, 0, "opt")
M("C_SVM", "TEMPEL_2_MARKT", ISvm, tempel_2_markt, 0, "opt")
M("C_SVM", "TEMPEL_2_GALGEN", ISvm, tempel_2_galgen, 0, "opt")
M("C_SVM", "MARKT_2_TEMPEL", ISvm, markt_2_tempel, 0, "opt")
M("C_SVM", "MARKT_2_KASERNE", ISvm, markt_2_kaserne, 0, "opt")
M("C_SVM", "MARKT_2_GALGEN", ISvm, markt_2_galgen, 0, "opt")
M("C_SVM", "GALGEN_2_TEMPEL", ISvm, galgen_2_tempel, 0, "opt")
M("C_SVM", "GALGEN_2_MARKT", ISvm, galgen_2_markt, 0, "opt")
M("C_SVM", "GALGEN_2_KASERNE", ISvm, galgen_2_kaserne, 0, "opt")
M("C_SVM", "KASERNE_2_MARKT", ISvm, kaserne_2_markt, 0, "opt")
M("C_SVM", "KASERNE_2_GALGEN", ISvm, kaserne_2_galgen, 0, "opt")
M("C_SVM", "HAFEN_2_UNTERSTADT", ISvm, hafen_2_unterstadt, 0, "opt")
M("C_SVM", "DEAD", ISvm, dead, 0, "opt")
M("C_SVM", "AARGH_1", ISvm, aargh_1, 0, "opt")
M("C_SVM", "AARGH_2", ISvm, aargh_2, 0, "opt")
M("C_SVM", "AARGH_3", ISvm, aargh_3, 0, "opt")
M("C_SVM", "ADDON_WRONGARMOR", ISvm, addon_wrong_armor, 0, "opt")
M("C_SVM", "ADDON_WRONGARMOR_SLD", ISvm, addon_wrong_armor_sld, 0, "opt")
M("C_SVM", "ADDON_WRONGARMOR_MIL", ISvm, addon_wrong_armor_mil, 0, "opt")
M("C_SVM", "ADDON_WRONGARMOR_KDF", ISvm, addon_wrong_armor_kdf, 0, "opt")
M("C_SVM", "ADDON_NOARMOR_BDT", ISvm, addon_no_armor_bdt, 0, "opt")
M("C_SVM", "ADDON_DIEBANDIT", ISvm, addon_die_bandit, 0, "opt")
M("C_SVM", "ADDON_DIRTYPIRATE", ISvm, addon_dirty_pirate, 0, "opt")
M("C_SVM", "SC_HEYTURNAROUND", ISvm, sc_hey_turn_around, 0, "opt")
M("C_SVM", "SC_HEYTURNAROUND02", ISvm, sc_hey_turn_around_02, 0, "opt")
M("C_SVM", "SC_HEYTURNAROUND03", ISvm, sc_hey_turn_around_03, 0, "opt")
M("C_SVM", "SC_HEYTURNAROUND04", ISvm, sc_hey_turn_around_04, 0, "opt")
M("C_SVM", "SC_HEYWAITASECOND", ISvm, sc_hey_wait_asecond, 0, "opt")
M("C_SVM", "DOESNTWORK", ISvm, doesnt_mork, 0, "opt")
M("C_SVM", "PICKBROKE", ISvm, pick_broke, 0, "opt")
M("C_SVM", "NEEDKEY", ISvm, need_key, 0, "opt")
M("C_SVM", "NOMOREPICKS", ISvm, no_more_picks, 0, "opt")
M("C_SVM", "NOPICKLOCKTALENT", ISvm, no_pick_lock_talent, 0, "opt")
M("C_SVM", "NOSWEEPING", ISvm, no_sweeping, 0, "opt")
M("C_SVM", "PICKLOCKORKEYMISSING", ISvm, pick_lock_or_key_missing, 0, "opt")
M("C_SVM", "KEYMISSING", ISvm, key_missing, 0, "opt")
M("C_SVM", "PICKLOCKMISSING", ISvm, pick_lock_missing, 0, "opt")
M("C_SVM", "NEVEROPEN", ISvm, never_open, 0, "opt")
M("C_SVM", "MISSINGITEM", ISvm, missing_item, 0, "opt")
M("C_SVM", "DONTKNOW", ISvm, dont_know, 0, "opt")
M("C_SVM", "NOTHINGTOGET", ISvm, nothing_to_get, 0, "opt")
M("C_SVM", "NOTHINGTOGET02", ISvm, nothing_to_get_02, 0, "opt")
M("C_SVM", "NOTHINGTOGET03", ISvm, nothing_to_get_03, 0, "opt")
M("C_SVM", "HEALSHRINE", ISvm, heal_shrine, 0, "opt")
M("C_SVM", "HEALLASTSHRINE", ISvm, heal_last_shrine, 0, "opt")
M("C_SVM", "IRDORATHTHEREYOUARE", ISvm, irdorath_there_you_are, 0, "opt")
M("C_SVM", "SCOPENSIRDORATHBOOK", ISvm, sc_opens_irdorath_book, 0, "opt")
M("C_SVM", "SCOPENSLASTDOOR", ISvm, sc_opens_last_door, 0, "opt")
M("C_SVM", "TRADE_1", ISvm, trade_1, 0, "opt")
M("C_SVM", "TRADE_2", ISvm, trade_2, 0, "opt")
M("C_SVM", "TRADE_3", ISvm, trade_3, 0, "opt")
M("C_SVM", "VERSTEHE", ISvm, verstehe, 0, "opt")
M("C_SVM", "FOUNDTREASURE", ISvm, found_treasure, 0, "opt")
M("C_SVM", "CANTUNDERSTANDTHIS", ISvm, cant_understand_this, 0, "opt")
M("C_SVM", "CANTREADTHIS", ISvm, cant_read_this, 0, "opt")
M("C_SVM", "STONEPLATE_1", ISvm, stoneplate_1, 0, "opt")
M("C_SVM", "STONEPLATE_2", ISvm, stoneplate_2, 0, "opt")
M("C_SVM", "STONEPLATE_3", ISvm, stoneplate_3, 0, "opt")
M("C_SVM", "COUGH", ISvm, cough, 0, "opt")
M("C_SVM", "HUI", ISvm, hui, 0, "opt")
M("C_SVM", "ADDON_THISLITTLEBASTARD", ISvm, addon_this_little_bastard, 0, "opt")
M("C_SVM", "ADDON_OPENADANOSTEMPLE", ISvm, addon_open_adanos_temple, 0, "opt")
M("C_SVM", "ATTENTAT_ADDON_DESCRIPTION", ISvm, attentat_addon_description, 0, "opt")
M("C_SVM", "ATTENTAT_ADDON_DESCRIPTION2", ISvm, attentat_addon_description_2, 0, "opt")
M("C_SVM", "ATTENTAT_ADDON_PRO", ISvm, attentat_addon_pro, 0, "opt")
M("C_SVM", "ATTENTAT_ADDON_CONTRA", ISvm, attentat_addon_contra, 0, "opt")
M("C_SVM", "MINE_ADDON_DESCRIPTION", ISvm, mine_addon_description, 0, "opt")
M("C_SVM", "ADDON_SUMMONANCIENTGHOST", ISvm, addon_summon_ancient_ghost, 0, "opt")
M("C_SVM", "ADDON_ANCIENTGHOST_NOTNEAR", ISvm, addon_ancient_ghost_not_near, 0, "opt")
M("C_SVM", "ADDON_GOLD_DESCRIPTION", ISvm, addon_gold_description, 0, "opt")
M("C_SVM", "WATCHYOURAIM", ISvm, watch_your_aim, 0, "opt")
M("C_SVM", "WATCHYOURAIMANGRY", ISvm, watch_your_aim_angry, 0, "opt")
M("C_SVM", "LETSFORGETOURLITTLEFIGHT", ISvm, lets_forget_our_little_fight, 0, "opt")
M("C_SVM", "STRANGE", ISvm, strange, 0, "opt")
M("C_SVM", "DIEMORTALENEMY", ISvm, die_mortal_enemy, 0, "opt")
M("C_SVM", "NOWWAIT", ISvm, now_wait, 0, "opt")
M("C_SVM", "NOWWAITINTRUDER", ISvm, now_wait_intruder, 0, "opt")
M("C_SVM", "YOUSTILLNOTHAVEENOUGH", ISvm, you_still_not_have_enough, 0, "opt")
M("C_SVM", "YOUATTACKEDMYCHARGE", ISvm, you_attacked_my_charge, 0, "opt")
M("C_SVM", "IWILLTEACHYOURESPECTFORFOREIGNPROPERTY", ISvm, iwill_teach_you_respect_for_foreign_property, 0, "opt")
M("C_SVM", "YOUKILLEDONEOFUS", ISvm, you_killed_one_of_us, 0, "opt")
M("C_SVM", "BERZERK", ISvm, berzerk, 0, "opt")
M("C_SVM", "YOULLBESORRYFORTHIS", ISvm, youll_be_sorry_for_this, 0, "opt")
M("C_SVM", "YESYES", ISvm, yes_yes, 0, "opt")
M("C_SVM", "SHITWHATAMONSTER", ISvm, shit_what_amonster, 0, "opt")
M("C_SVM", "WEWILLMEETAGAIN", ISvm, we_will_meet_again, 0, "opt")
M("C_SVM", "NEVERTRYTHATAGAIN", ISvm, never_try_that_again, 0, "opt")
M("C_SVM", "ITOOKYOURORE", ISvm, itook_your_ore, 0, "opt")
M("C_SVM", "SHITNOORE", ISvm, shit_no_ore, 0, "opt")
M("C_SVM", "YOUVIOLATEDFORBIDDENTERRITORY", ISvm, you_violated_forbidden_territory, 0, "opt")
M("C_SVM", "YOUWANNAFOOLME", ISvm, you_wanna_fool_me, 0, "opt")
M("C_SVM", "WHATDIDYOUINTHERE", ISvm, what_did_you_in_there, 0, "opt")
M("C_SVM", "INTRUDERALERT", ISvm, intruder_alert, 0, "opt")
M("C_SVM", "BEHINDYOU", ISvm, behind_you, 0, "opt")
M("C_SVM", "HEYHEYHEY", ISvm, hey_hey_hey, 0, "opt")
M("C_SVM", "CHEERFIGHT", ISvm, cheer_fight, 0, "opt")
M("C_SVM", "CHEERFRIEND", ISvm, cheer_friend, 0, "opt")
M("C_SVM", "OOH", ISvm, ooh, 0, "opt")
M("C_SVM", "YEAHWELLDONE", ISvm, yeah_well_done, 0, "opt")
M("C_SVM", "HEDEFEATEDHIM", ISvm, he_defeatedhim, 0, "opt")
M("C_SVM", "HEDESERVEDIT", ISvm, he_deserv_edit, 0, "opt")
M("C_SVM", "HEKILLEDHIM", ISvm, he_killed_him, 0, "opt")
M("C_SVM", "ITWASAGOODFIGHT", ISvm, it_was_agood_fight, 0, "opt")
M("C_SVM", "FRIENDLYGREETINGS", ISvm, friendly_greetings, 0, "opt")
M("C_SVM", "ALGREETINGS", ISvm, al_greetings, 0, "opt")
M("C_SVM", "MAGEGREETINGS", ISvm, mage_greetings, 0, "opt")
M("C_SVM", "SECTGREETINGS", ISvm, sect_greetings, 0, "opt")
M("C_SVM", "THEREHEIS", ISvm, there_he_is, 0, "opt")
M("C_SVM", "NOLEARNOVERMAX", ISvm, no_learn_over_max, 0, "opt")
M("C_SVM", "NOLEARNYOUALREADYKNOW", ISvm, no_learn_you_already_know, 0, "opt")
M("C_SVM", "HEYYOU", ISvm, hey_you, 0, "opt")
M("C_SVM", "WHATDOYOUWANT", ISvm, what_do_you_want, 0, "opt")
M("C_SVM", "ISAIDWHATDOYOUWANT", ISvm, isaid_what_do_you_want, 0, "opt")
M("C_SVM", "MAKEWAY", ISvm, make_way, 0, "opt")
M("C_SVM", "OUTOFMYWAY", ISvm, out_of_my_way, 0, "opt")
M("C_SVM", "YOUDEAFORWHAT", ISvm, you_deaf_or_what, 0, "opt")
M("C_SVM", "LOOKAWAY", ISvm, look_away, 0, "opt")
M("C_SVM", "OKAYKEEPIT", ISvm, okay_keep_it, 0, "opt")
M("C_SVM", "WHATSTHAT", ISvm, whats_that, 0, "opt")
M("C_SVM", "THATSMYWEAPON", ISvm, thats_my_weapon, 0, "opt")
M("C_SVM", "GIVEITTOME", ISvm, give_it_tome, 0, "opt")
M("C_SVM", "YOUCANKEEPTHECRAP", ISvm, you_can_keep_the_crap, 0, "opt")
M("C_SVM", "THEYKILLEDMYFRIEND", ISvm, they_killed_my_friend, 0, "opt")
M("C_SVM", "SUCKERGOTSOME", ISvm, sucker_got_some, 0, "opt")
M("C_SVM", "SUCKERDEFEATEDEBR", ISvm, sucker_defeated_ebr, 0, "opt")
M("C_SVM", "SUCKERDEFEATEDGUR", ISvm, sucker_defeated_gur, 0, "opt")
M("C_SVM", "SUCKERDEFEATEDMAGE", ISvm, sucker_defeated_mage, 0, "opt")
M("C_SVM", "SUCKERDEFEATEDNOV_GUARD", ISvm, sucker_defeated_nov_guard, 0, "opt")
M("C_SVM", "SUCKERDEFEATEDVLK_GUARD", ISvm, sucker_defeated_vlk_guard, 0, "opt")
M("C_SVM", "YOUDEFEATEDMYCOMRADE", ISvm, you_defeated_my_comrade, 0, "opt")
M("C_SVM", "YOUDEFEATEDNOV_GUARD", ISvm, you_defeated_nov_guard, 0, "opt")
M("C_SVM", "YOUDEFEATEDVLK_GUARD", ISvm, you_defeated_vlk_guard, 0, "opt")
M("C_SVM", "YOUSTOLEFROMME", ISvm, you_stole_from_me, 0, "opt")
M("C_SVM", "YOUSTOLEFROMUS", ISvm, you_stole_from_us, 0, "opt")
M("C_SVM", "YOUSTOLEFROMEBR", ISvm, you_stole_from_ebr, 0, "opt")
M("C_SVM", "YOUSTOLEFROMGUR", ISvm, you_stole_from_gur, 0, "opt")
M("C_SVM", "STOLEFROMMAGE", ISvm, stole_urom_mage, 0, "opt")
M("C_SVM", "YOUKILLEDMYFRIEND", ISvm, you_killedmyfriend, 0, "opt")
M("C_SVM", "YOUKILLEDEBR", ISvm, you_killed_ebr, 0, "opt")
M("C_SVM", "YOUKILLEDGUR", ISvm, you_killed_gur, 0, "opt")
M("C_SVM", "YOUKILLEDMAGE", ISvm, you_killed_mage, 0, "opt")
M("C_SVM", "YOUKILLEDOCFOLK", ISvm, you_killed_oc_folk, 0, "opt")
M("C_SVM", "YOUKILLEDNCFOLK", ISvm, you_killed_nc_folk, 0, "opt")
M("C_SVM", "YOUKILLEDPSIFOLK", ISvm, you_killed_psi_folk, 0, "opt")
M("C_SVM", "GETTHINGSRIGHT", ISvm, get_things_right, 0, "opt")
M("C_SVM", "YOUDEFEATEDMEWELL", ISvm, you_defeated_me_well, 0, "opt")
M("C_SVM", "OM", ISvm, om, 0, "opt")
M("C_MENU", "BACKPIC", IMenu, back_pic, 0, "")
M("C_MENU", "BACKWORLD", IMenu, back_world, 0, "")
M("C_MENU", "POSX", IMenu, pos_x, 0, "")
M("C_MENU", "POSY", IMenu, pos_y, 0, "")
M("C_MENU", "DIMX", IMenu, dim_x, 0, "")
M("C_MENU", "DIMY", IMenu, dim_y, 0, "")
M("C_MENU", "ALPHA", IMenu, alpha, 0, "")
M("C_MENU", "MUSICTHEME", IMenu, music_theme, 0, "")
M("C_MENU", "EVENTTIMERMSEC", IMenu, event_timer_msec, 0, "")
M("C_MENU", "ITEMS", IMenu, items, 0, "")
M("C_MENU", "FLAGS", IMenu, flags, 0, "")
M("C_MENU", "DEFAULTOUTGAME", IMenu, default_outgame, 0, "")
M("C_MENU", "DEFAULTINGAME", IMenu, default_ingame, 0, "")
M("C_MENU_ITEM", "FONTNAME", IMenuItem, fontname, 0, "")
M("C_MENU_ITEM", "TEXT", IMenuItem, text, 0, "")
M("C_MENU_ITEM", "BACKPIC", IMenuItem, backpic, 0, "")
M("C_MENU_ITEM", "ALPHAMODE", IMenuItem, alphamode, 0, "")
M("C_MENU_ITEM", "ALPHA", IMenuItem, alpha, 0, "")
M("C_MENU_ITEM", "TYPE", IMenuItem, type, 0, "")
M("C_MENU_ITEM", "ONSELACTION", IMenuItem, on_sel_action, 0, "")
M("C_MENU_ITEM", "ONSELACTION_S", IMenuItem, on_sel_action_s, 0, "")
M("C_MENU_ITEM", "ONCHGSETOPTION", IMenuItem, on_chg_set_option, 0, "")
M("C_MENU_ITEM", "ONCHGSETOPTIONSECTION", IMenuItem, on_chg_set_option_section, 0, "")
M("C_MENU_ITEM", "ONEVENTACTION", IMenuItem, on_event_action, 1, "")
M("C_MENU_ITEM", "POSX", IMenuItem, pos_x, 0, "")
M("C_MENU_ITEM", "POSY", IMenuItem, pos_y, 0, "")
M("C_MENU_ITEM", "DIMX", IMenuItem, dim_x, 0, "")
M("C_MENU_ITEM", "DIMY", IMenuItem, dim_y, 0, "")
M("C_MENU_ITEM", "SIZESTARTSCALE", IMenuItem, size_start_scale, 0, "")
M("C_MENU_ITEM", "FLAGS", IMenuItem, flags, 0, "")
M("C_MENU_ITEM", "OPENDELAYTIME", IMenuItem, open_delay_time, 0, "")
M("C_MENU_ITEM", "OPENDURATION", IMenuItem, open_duration, 0, "")
M("C_MENU_ITEM", "USERFLOAT", IMenuItem, user_float, 0, "")
M("C_MENU_ITEM", "USERSTRING", IMenuItem, user_string, 0, "")
M("C_MENU_ITEM", "FRAMESIZEX", IMenuItem, frame_sizex, 0, "")
M("C_MENU_ITEM", "FRAMESIZEY", IMenuItem, frame_sizey, 0, "")
M("C_MENU_ITEM", "FRAMEPOSX", IMenuItem, frame_posx, 0, "FRAMEPOSX")
M("C_MENU_ITEM", "FRAMEPOSY", IMenuItem, frame_posy, 0, "FRAMEPOSX")
M("C_MENU_ITEM", "HIDEIFOPTIONSECTIONSET", IMenuItem, hide_if_option_section_set, 0, "HIDEIFOPTIONSECTIONSET")
M("C_MENU_ITEM", "HIDEIFOPTIONSET", IMenuItem, hide_if_option_set, 0, "HIDEIFOPTIONSECTIONSET")
M("C_MENU_ITEM", "HIDEONVALUE", IMenuItem, hide_on_value, 0, "HIDEIFOPTIONSECTIONSET")
M("CCAMSYS", "BESTRANGE", ICamera, best_range, 0, "")
M("CCAMSYS", "MINRANGE", ICamera, min_range, 0, "")
M("CCAMSYS", "MAXRANGE", ICamera, max_range, 0, "")
M("CCAMSYS", "BESTELEVATION", ICamera, best_elevation, 0, "")
M("CCAMSYS", "MINELEVATION", ICamera, min_elevation, 0, "")
M("CCAMSYS", "MAXELEVATION", ICamera, max_elevation, 0, "")
M("CCAMSYS", "BESTAZIMUTH", ICamera, best_azimuth, 0, "")
M("CCAMSYS", "MINAZIMUTH", ICamera, min_azimuth, 0, "")
M("CCAMSYS", "MAXAZIMUTH", ICamera, max_azimuth, 0, "")
M("CCAMSYS", "BESTROTZ", ICamera, best_rot_z, 0, "")
M("CCAMSYS", "MINROTZ", ICamera, min_rot_z, 0, "")
M("CCAMSYS", "MAXROTZ", ICamera, max_rot_z, 0, "")
M("CCAMSYS", "ROTOFFSETX", ICamera, rot_offset_x, 0, "")
M("CCAMSYS", "ROTOFFSETY", ICamera, rot_offset_y, 0, "")
M("CCAMSYS", "ROTOFFSETZ", ICamera, rot_offset_z, 0, "")
M("CCAMSYS", "TARGETOFFSETX", ICamera, target_offset_x, 0, "")
M("CCAMSYS", "TARGETOFFSETY", ICamera, target_offset_y, 0, "")
M("CCAMSYS", "TARGETOFFSETZ", ICamera, target_offset_z, 0, "")
M("CCAMSYS", "VELOTRANS", ICamera, velo_trans, 0, "")
M("CCAMSYS", "VELOROT", ICamera, velo_rot, 0, "")
M("CCAMSYS", "TRANSLATE", ICamera, translate, 0, "")
M("CCAMSYS", "ROTATE", ICamera, rotate, 0, "")
M("CCAMSYS", "COLLISION", ICamera, collision, 0, "")
M("C_MUSICSYS_CFG", "VOLUME", IMusicSystem, volume, 0, "")
M("C_MUSICSYS_CFG", "BITRESOLUTION", IMusicSystem, bit_resolution, 0, "")
M("C_MUSICSYS_CFG", "GLOBALREVERBENABLED", IMusicSystem, global_reverb_enabled, 0, "")
M("C_MUSICSYS_CFG", "SAMPLERATE", IMusicSystem, sample_rate, 0, "")
M("C_MUSICSYS_CFG", "NUMCHANNELS", IMusicSystem, num_channels, 0, "")
M("C_MUSICSYS_CFG", "REVERBBUFFERSIZE", IMusicSystem, reverb_buffer_size, 0, "")
M("C_MUSICTHEME", "FILE", IMusicTheme, file, 0, "")
M("C_MUSICTHEME", "VOL", IMusicTheme, vol, 0, "")
M("C_MUSICTHEME", "LOOP", IMusicTheme, loop, 0, "")
M("C_MUSICTHEME", "REVERBMIX", IMusicTheme, reverbmix, 0, "")
M("C_MUSICTHEME", "REVERBTIME", IMusicTheme, reverbtime, 0, "")
M("C_MUSICTHEME", "TRANSTYPE", IMusicTheme, transtype, 0, "")
M("C_MUSICTHEME", "TRANSSUBTYPE", IMusicTheme, transsubtype, 0, "")
M("C_MUSICJINGLE", "NAME", IMusicJingle, name, 0, "")
M("C_MUSICJINGLE", "LOOP", IMusicJingle, loop, 0, "")
M("C_MUSICJINGLE", "VOL", IMusicJingle, vol, 0, "")
M("C_MUSICJINGLE", "TRANSSUBTYPE", IMusicJingle, transsubtype, 0, "")
M("C_PARTICLEFX", "PPSVALUE", IParticleEffect, pps_value, 0, "")
M("C_PARTICLEFX", "PPSSCALEKEYS_S", IParticleEffect, pps_scale_keys_s, 0, "")
M("C_PARTICLEFX", "PPSISLOOPING", IParticleEffect, pps_is_looping, 0, "")
M("C_PARTICLEFX", "PPSISSMOOTH", IParticleEffect, pps_is_smooth, 0, "")
M("C_PARTICLEFX", "PPSFPS", IParticleEffect, pps_fps, 0, "")
M("C_PARTICLEFX", "PPSCREATEEM_S", IParticleEffect, pps_create_em_s, 0, "")
M("C_PARTICLEFX", "PPSCREATEEMDELAY", IParticleEffect, pps_create_em_delay, 0, "")
M("C_PARTICLEFX", "SHPTYPE_S", IParticleEffect, shp_type_s, 0, "")
M("C_PARTICLEFX", "SHPFOR_S", IParticleEffect, shp_for_s, 0, "")
M("C_PARTICLEFX", "SHPOFFSETVEC_S", IParticleEffect, shp_offset_vec_s, 0, "")
M("C_PARTICLEFX", "SHPDISTRIBTYPE_S", IParticleEffect, shp_distrib_type_s, 0, "")
M("C_PARTICLEFX", "SHPDISTRIBWALKSPEED", IParticleEffect, shp_distrib_walk_speed, 0, "")
M("C_PARTICLEFX", "SHPISVOLUME", IParticleEffect, shp_is_volume, 0, "")
M("C_PARTICLEFX", "SHPDIM_S", IParticleEffect, shp_dim_s, 0, "")
M("C_PARTICLEFX", "SHPMESH_S", IParticleEffect, shp_mesh_s, 0, "")
M("C_PARTICLEFX", "SHPMESHRENDER_B", IParticleEffect, shp_mesh_render_b, 0, "")
M("C_PARTICLEFX", "SHPSCALEKEYS_S", IParticleEffect, shp_scale_keys_s, 0, "")
M("C_PARTICLEFX", "SHPSCALEISLOOPING", IParticleEffect, shp_scale_is_looping, 0, "")
M("C_PARTICLEFX", "SHPSCALEISSMOOTH", IParticleEffect, shp_scale_is_smooth, 0, "")
M("C_PARTICLEFX", "SHPSCALEFPS", IParticleEffect, shp_scale_fps, 0, "")
M("C_PARTICLEFX", "DIRMODE_S", IParticleEffect, dir_mode_s, 0, "")
M("C_PARTICLEFX", "DIRFOR_S", IParticleEffect, dir_for_s, 0, "")
M("C_PARTICLEFX", "DIRMODETARGETFOR_S", IParticleEffect, dir_mode_target_for_s, 0, "")
M("C_PARTICLEFX", "DIRMODETARGETPOS_S", IParticleEffect, dir_mode_target_pos_s, 0, "")
M("C_PARTICLEFX", "DIRANGLEHEAD", IParticleEffect, dir_angle_head, 0, "")
M("C_PARTICLEFX", "DIRANGLEHEADVAR", IParticleEffect, dir_angle_head_var, 0, "")
M("C_PARTICLEFX", "DIRANGLEELEV", IParticleEffect, dir_angle_elev, 0, "")
M("C_PARTICLEFX", "DIRANGLEELEVVAR", IParticleEffect, dir_angle_elev_var, 0, "")
M("C_PARTICLEFX", "VELAVG", IParticleEffect, vel_avg, 0, "")
M("C_PARTICLEFX", "VELVAR", IParticleEffect, vel_var, 0, "")
M("C_PARTICLEFX", "LSPPARTAVG", IParticleEffect, lsp_part_avg, 0, "")
M("C_PARTICLEFX", "LSPPARTVAR", IParticleEffect, lsp_part_var, 0, "")
M("C_PARTICLEFX", "FLYGRAVITY_S", IParticleEffect, fly_gravity_s, 0, "")
M("C_PARTICLEFX", "FLYCOLLDET_B", IParticleEffect, fly_colldet_b, 0, "")
M("C_PARTICLEFX", "VISNAME_S", IParticleEffect, vis_name_s, 0, "")
M("C_PARTICLEFX", "VISORIENTATION_S", IParticleEffect, vis_orientation_s, 0, "")
M("C_PARTICLEFX", "VISTEXISQUADPOLY", IParticleEffect, vis_tex_is_quadpoly, 0, "")
M("C_PARTICLEFX", "VISTEXANIFPS", IParticleEffect, vis_tex_ani_fps, 0, "")
M("C_PARTICLEFX", "VISTEXANIISLOOPING", IParticleEffect, vis_tex_ani_is_looping, 0, "")
M("C_PARTICLEFX", "VISTEXCOLORSTART_S", IParticleEffect, vis_tex_color_start_s, 0, "")
M("C_PARTICLEFX", "VISTEXCOLOREND_S", IParticleEffect, vis_tex_color_end_s, 0, "")
M("C_PARTICLEFX", "VISSIZESTART_S", IParticleEffect, vis_size_start_s, 0, "")
M("C_PARTICLEFX", "VISSIZEENDSCALE", IParticleEffect, vis_size_end_scale, 0, "")
M("C_PARTICLEFX", "VISALPHAFUNC_S", IParticleEffect, vis_alpha_func_s, 0, "")
M("C_PARTICLEFX", "VISALPHASTART", IParticleEffect, vis_alpha_start, 0, "")
M("C_PARTICLEFX", "VISALPHAEND", IParticleEffect, vis_alpha_end, 0, "")
M("C_PARTICLEFX", "TRLFADESPEED", IParticleEffect, trl_fade_speed, 0, "")
M("C_PARTICLEFX", "TRLTEXTURE_S", IParticleEffect, trl_texture_s, 0, "")
M("C_PARTICLEFX", "TRLWIDTH", IParticleEffect, trl_width, 0, "")
M("C_PARTICLEFX", "MRKFADESPEED", IParticleEffect, mrk_fades_peed, 0, "")
M("C_PARTICLEFX", "MRKTEXTURE_S", IParticleEffect, mrkt_exture_s, 0, "")
M("C_PARTICLEFX", "MRKSIZE", IParticleEffect, mrk_size, 0, "")
M("C_PARTICLEFX", "FLOCKMODE", IParticleEffect, flock_mode, 0, "FLOCKMODE")
M("C_PARTICLEFX", "FLOCKSTRENGTH", IParticleEffect, flock_strength, 0, "FLOCKMODE")
M("C_PARTICLEFX", "USEEMITTERSFOR", IParticleEffect, use_emitters_for, 0, "FLOCKMODE")
M("C_PARTICLEFX", "TIMESTARTEND_S", IParticleEffect, time_start_end_s, 0, "FLOCKMODE")
M("C_PARTICLEFX", "M_BISAMBIENTPFX", IParticleEffect, m_bis_ambient_pfx, 0, "FLOCKMODE")
M("CFX_BASE", "VISNAME_S", IEffectBase, vis_name_s, 0, "")
M("CFX_BASE", "VISSIZE_S", IEffectBase, vis_size_s, 0, "")
M("CFX_BASE", "VISALPHA", IEffectBase, vis_alpha, 0, "")
M("CFX_BASE", "VISALPHABLENDFUNC_S", IEffectBase, vis_alpha_blend_func_s, 0, "")
M("CFX_BASE", "VISTEXANIFPS", IEffectBase, vis_tex_ani_fps, 0, "")
M("CFX_BASE", "VISTEXANIISLOOPING", IEffectBase, vis_tex_ani_is_looping, 0, "")
M("CFX_BASE", "EMTRJMODE_S", IEffectBase, em_trj_mode_s, 0, "")
M("CFX_BASE", "EMTRJORIGINNODE", IEffectBase, em_trj_origin_node, 0, "")
M("CFX_BASE", "EMTRJTARGETNODE", IEffectBase, em_trj_target_node, 0, "")
M("CFX_BASE", "EMTRJTARGETRANGE", IEffectBase, em_trj_target_range, 0, "")
M("CFX_BASE", "EMTRJTARGETAZI", IEffectBase, em_trj_target_azi, 0, "")
M("CFX_BASE", "EMTRJTARGETELEV", IEffectBase, em_trj_target_elev, 0, "")
M("CFX_BASE", "EMTRJNUMKEYS", IEffectBase, em_trj_num_keys, 0, "")
M("CFX_BASE", "EMTRJNUMKEYSVAR", IEffectBase, em_trj_num_keys_var, 0, "")
M("CFX_BASE", "EMTRJANGLEELEVVAR", IEffectBase, em_trj_angle_elev_var, 0, "")
M("CFX_BASE", "EMTRJANGLEHEADVAR", IEffectBase, em_trj_angle_head_var, 0, "")
M("CFX_BASE", "EMTRJKEYDISTVAR", IEffectBase, em_trj_key_dist_var, 0, "")
M("CFX_BASE", "EMTRJLOOPMODE_S", IEffectBase, em_trj_loop_mode_s, 0, "")
M("CFX_BASE", "EMTRJEASEFUNC_S", IEffectBase, em_trj_ease_func_s, 0, "")
M("CFX_BASE", "EMTRJEASEVEL", IEffectBase, em_trj_ease_vel, 0, "")
M("CFX_BASE", "EMTRJDYNUPDATEDELAY", IEffectBase, em_trj_dyn_update_delay, 0, "")
M("CFX_BASE", "EMTRJDYNUPDATETARGETONLY", IEffectBase, em_trj_dyn_update_target_only, 0, "")
M("CFX_BASE", "EMFXCREATE_S", IEffectBase, em_fx_create_s, 0, "")
M("CFX_BASE", "EMFXINVESTORIGIN_S", IEffectBase, em_fx_invest_origin_s, 0, "")
M("CFX_BASE", "EMFXINVESTTARGET_S", IEffectBase, em_fx_invest_target_s, 0, "")
M("CFX_BASE", "EMFXTRIGGERDELAY", IEffectBase, em_fx_trigger_delay, 0, "")
M("CFX_BASE", "EMFXCREATEDOWNTRJ", IEffectBase, em_fx_create_down_trj, 0, "")
M("CFX_BASE", "EMACTIONCOLLDYN_S", IEffectBase, em_action_coll_dyn_s, 0, "")
M("CFX_BASE", "EMACTIONCOLLSTAT_S", IEffectBase, em_action_coll_stat_s, 0, "")
M("CFX_BASE", "EMFXCOLLSTAT_S", IEffectBase, em_fx_coll_stat_s, 0, "")
M("CFX_BASE", "EMFXCOLLDYN_S", IEffectBase, em_fx_coll_dyn_s, 0, "")
M("CFX_BASE", "EMFXCOLLSTATALIGN_S", IEffectBase, em_fx_coll_stat_align_s, 0, "")
M("CFX_BASE", "EMFXCOLLDYNALIGN_S", IEffectBase, em_fx_coll_dyn_align_s, 0, "")
M("CFX_BASE", "EMFXLIFESPAN", IEffectBase, em_fx_lifespan, 0, "")
M("CFX_BASE", "EMCHECKCOLLISION", IEffectBase, em_check_collision, 0, "")
M("CFX_BASE", "EMADJUSTSHPTOORIGIN", IEffectBase, em_adjust_shp_to_origin, 0, "")
M("CFX_BASE", "EMINVESTNEXTKEYDURATION", IEffectBase, em_invest_next_key_duration, 0, "")
M("CFX_BASE", "EMFLYGRAVITY", IEffectBase, em_fly_gravity, 0, "")
M("CFX_BASE", "EMSELFROTVEL_S", IEffectBase, em_self_rot_vel_s, 0, "")
M("CFX_BASE", "USERSTRING", IEffectBase, user_string, 0, "")
M("CFX_BASE", "LIGHTPRESETNAME", IEffectBase, light_preset_name, 0, "")
M("CFX_BASE", "SFXID", IEffectBase, sfx_id, 0, "")
M("CFX_BASE", "SFXISAMBIENT", IEffectBase, sfx_is_ambient, 0, "")
M("CFX_BASE", "SENDASSESSMAGIC", IEffectBase, send_assess_magic, 0, "")
M("CFX_BASE", "SECSPERDAMAGE", IEffectBase, secs_per_damage, 0, "")
M("CFX_BASE", "EMFXCOLLDYNPERC_S", IEffectBase, em_fx_coll_dyn_perc_s, 0, "opt")
