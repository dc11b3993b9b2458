// Stand-in for OpenGL 3.3 core as glbinding declares it: what a 2D renderer could use.
// Implemented by the recording state machine of app_env.hpp.
#pragma once
#include <cstddef>
#include <cstdint>
namespace gl
{
enum class GLenum : unsigned
{
    GL_TRIANGLES = 0x0004, GL_TRIANGLE_STRIP = 0x0005, GL_TRIANGLE_FAN = 0x0006, GL_LINES = 0x0001,
    GL_SRC_ALPHA = 0x0302, GL_ONE_MINUS_SRC_ALPHA = 0x0303, GL_ONE = 1, GL_ZERO = 0,
    GL_BLEND = 0x0BE2, GL_DEPTH_TEST = 0x0B71, GL_CULL_FACE = 0x0B44, GL_SCISSOR_TEST = 0x0C11,
    GL_UNSIGNED_BYTE = 0x1401, GL_UNSIGNED_SHORT = 0x1403, GL_UNSIGNED_INT = 0x1405, GL_FLOAT = 0x1406,
    GL_ARRAY_BUFFER = 0x8892, GL_ELEMENT_ARRAY_BUFFER = 0x8893, GL_STREAM_DRAW = 0x88E0, GL_STATIC_DRAW = 0x88E4, GL_DYNAMIC_DRAW = 0x88E8,
    GL_FRAGMENT_SHADER = 0x8B30, GL_VERTEX_SHADER = 0x8B31, GL_COMPILE_STATUS = 0x8B81, GL_LINK_STATUS = 0x8B82, GL_INFO_LOG_LENGTH = 0x8B84,
    GL_NO_ERROR = 0
};
constexpr GLenum GL_TRIANGLES = GLenum::GL_TRIANGLES, GL_TRIANGLE_STRIP = GLenum::GL_TRIANGLE_STRIP, GL_TRIANGLE_FAN = GLenum::GL_TRIANGLE_FAN, GL_LINES = GLenum::GL_LINES;
constexpr GLenum GL_SRC_ALPHA = GLenum::GL_SRC_ALPHA, GL_ONE_MINUS_SRC_ALPHA = GLenum::GL_ONE_MINUS_SRC_ALPHA, GL_BLEND = GLenum::GL_BLEND, GL_DEPTH_TEST = GLenum::GL_DEPTH_TEST,
                 GL_CULL_FACE = GLenum::GL_CULL_FACE, GL_SCISSOR_TEST = GLenum::GL_SCISSOR_TEST;
constexpr GLenum GL_UNSIGNED_BYTE = GLenum::GL_UNSIGNED_BYTE, GL_UNSIGNED_SHORT = GLenum::GL_UNSIGNED_SHORT, GL_UNSIGNED_INT = GLenum::GL_UNSIGNED_INT, GL_FLOAT = GLenum::GL_FLOAT;
constexpr GLenum GL_ARRAY_BUFFER = GLenum::GL_ARRAY_BUFFER, GL_ELEMENT_ARRAY_BUFFER = GLenum::GL_ELEMENT_ARRAY_BUFFER, GL_STREAM_DRAW = GLenum::GL_STREAM_DRAW,
                 GL_STATIC_DRAW = GLenum::GL_STATIC_DRAW, GL_DYNAMIC_DRAW = GLenum::GL_DYNAMIC_DRAW;
constexpr GLenum GL_FRAGMENT_SHADER = GLenum::GL_FRAGMENT_SHADER, GL_VERTEX_SHADER = GLenum::GL_VERTEX_SHADER, GL_COMPILE_STATUS = GLenum::GL_COMPILE_STATUS,
                 GL_LINK_STATUS = GLenum::GL_LINK_STATUS, GL_INFO_LOG_LENGTH = GLenum::GL_INFO_LOG_LENGTH, GL_NO_ERROR = GLenum::GL_NO_ERROR;
enum class ClearBufferMask : unsigned { GL_COLOR_BUFFER_BIT = 0x4000, GL_DEPTH_BUFFER_BIT = 0x100 };
constexpr ClearBufferMask GL_COLOR_BUFFER_BIT = ClearBufferMask::GL_COLOR_BUFFER_BIT, GL_DEPTH_BUFFER_BIT = ClearBufferMask::GL_DEPTH_BUFFER_BIT;

typedef unsigned char GLboolean;
constexpr GLboolean GL_FALSE = 0, GL_TRUE = 1;
typedef int            GLint;
typedef unsigned       GLuint;
typedef int            GLsizei;
typedef char           GLchar;
typedef float          GLfloat;
typedef std::ptrdiff_t GLsizeiptr;
typedef std::ptrdiff_t GLintptr;

void   glEnable(GLenum);
void   glDisable(GLenum);
void   glBlendFunc(GLenum, GLenum);
GLuint glCreateShader(GLenum);
void   glShaderSource(GLuint, GLsizei, const GLchar* const*, const GLint*);
void   glCompileShader(GLuint);
void   glGetShaderiv(GLuint, GLenum, GLint*);
void   glGetShaderInfoLog(GLuint, GLsizei, GLsizei*, GLchar*);
void   glDeleteShader(GLuint);
GLuint glCreateProgram();
void   glAttachShader(GLuint, GLuint);
void   glDetachShader(GLuint, GLuint);
void   glLinkProgram(GLuint);
void   glGetProgramiv(GLuint, GLenum, GLint*);
void   glGetProgramInfoLog(GLuint, GLsizei, GLsizei*, GLchar*);
void   glDeleteProgram(GLuint);
void   glUseProgram(GLuint);
GLint  glGetUniformLocation(GLuint, const GLchar*);
void   glUniformMatrix3fv(GLint, GLsizei, GLboolean, const GLfloat*);
void   glGenVertexArrays(GLsizei, GLuint*);
void   glDeleteVertexArrays(GLsizei, const GLuint*);
void   glBindVertexArray(GLuint);
void   glGenBuffers(GLsizei, GLuint*);
void   glDeleteBuffers(GLsizei, const GLuint*);
void   glBindBuffer(GLenum, GLuint);
void   glBufferData(GLenum, GLsizeiptr, const void*, GLenum);
void   glBufferSubData(GLenum, GLintptr, GLsizeiptr, const void*);
void   glVertexAttribPointer(GLuint, GLint, GLenum, GLboolean, GLsizei, const void*);
void   glEnableVertexAttribArray(GLuint);
void   glDisableVertexAttribArray(GLuint);
void   glDrawElements(GLenum, GLsizei, GLenum, const void*);
void   glDrawArrays(GLenum, GLint, GLsizei);
void   glClearColor(GLfloat, GLfloat, GLfloat, GLfloat);
void   glClear(ClearBufferMask);
void   glViewport(GLint, GLint, GLsizei, GLsizei);
void   glFlush();
void   glFinish();
GLenum glGetError();
}
