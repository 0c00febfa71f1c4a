@@include std.vx
@@include adler32.vx
