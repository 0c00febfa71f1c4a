@@include std.vx
@@include blocktree.vx
@@endfn
